"""C29 - C34: loaders of the model formats, saving, export."""
import os, sys
import numpy as np
import models as M
from p_model import expected, data
from lib import case


def put(t, text, ext='txt', mode='w'):
    p = M.path(t, ext)
    with open(p, mode) as f:
        f.write(text)
    return p


def same_trees(t, m, spec, weights=True):
    """the trees stored in the model are those of the spec, in order"""
    t.check(m.n_trees == len(spec.trees), 'number of trees', got=m.n_trees, want=len(spec.trees))
    t.check(m.n_nodes == sum(M.nodes(tr) for tr in spec.trees), 'number of nodes', got=m.n_nodes)
    seen = []

    def go(i, tr):
        seen.append(i)
        l, r = int(m.trees_left_child[i]), int(m.trees_right_child[i])
        v = np.float32(m.trees_nodes_value[i])
        if tr[0] == 'leaf':
            t.check(l == -1 and r == -1 and m.is_leaf_node(i), 'a leaf has children', node=i)
            t.check(v == np.float32(tr[1]), 'leaf value', node=i, got=v, want=tr[1])
        else:
            t.check(l >= 0 and r >= 0 and l != r, 'a split lacks children', node=i, got=(l, r))
            t.check(int(m.trees_nodes_feature[i]) == tr[1], 'feature of a split', node=i, got=int(m.trees_nodes_feature[i]), want=tr[1])
            t.check(v == np.float32(tr[2]), 'threshold', node=i, got=v, want=tr[2])
            go(l, tr[3])
            go(r, tr[4])
    for k, tr in enumerate(spec.trees):
        go(int(m.trees_root[k]), tr)
        if weights:
            t.check(np.float32(m.trees_weight[k]) == np.float32(spec.weights[k]), 'weight of a tree', tree=k, got=m.trees_weight[k], want=spec.weights[k])
    t.check(sorted(seen) == list(range(m.n_nodes)), 'the nodes are not those of the trees')


def features(t, nf, spec):
    """feature vectors, many of them with values at the thresholds and next to them"""
    n = int(t.rng.randint(1, 30))
    X = t.rng.randn(n, nf).astype(np.float32)
    thr = [np.float32(nd[2]) for tr in spec.trees for nd in M.preorder(tr) if nd[0] == 'split']
    if thr:
        for i in range(n):
            for j in range(nf):
                k = t.rng.randint(5)
                v = thr[t.rng.randint(len(thr))]
                if k == 0:
                    X[i, j] = v
                elif k == 1:
                    X[i, j] = np.nextafter(v, np.float32(np.inf), dtype=np.float32)
                elif k == 2:
                    X[i, j] = np.nextafter(v, np.float32(-np.inf), dtype=np.float32)
    return X


def scored(t, m, X, want, what, tol=2e-4):
    from rankeval.dataset import Dataset
    n = len(X)
    d = Dataset(X, np.zeros(n, np.float32), np.zeros(n, np.int32))
    got, want = np.asarray(m.score(d), float), np.asarray(want, float)
    size = np.abs(m.trees_nodes_value[(m.trees_left_child == -1)].astype(float)).max() * max(1, np.abs(m.trees_weight.astype(float)).max()) * m.n_trees + abs(m.base_score or 0) + 1
    t.check(got.shape == want.shape and bool((np.abs(got - want) <= tol * .1 * size).all()), what, got=got, want=want)


# ---------------------------------------------------------------------------------------------------- QuickRank

@case('C29', 200)
def quickrank_load(t):
    s = M.ensemble(t, max_trees=t.pick(2, 6, 20), max_leaves=t.pick(3, 9, 40), values=t.pick('dyadic', 'real'))
    m = M.load(t, s)
    same_trees(t, m, s)


@case('C29', 200)
def quickrank_roundtrip(t):
    from rankeval.model import RTEnsemble, ProxyQuickRank
    s = M.ensemble(t, max_trees=t.pick(2, 6, 20), max_leaves=t.pick(3, 9, 40), values=t.pick('dyadic', 'real', 'real'), plain=True)
    m = M.load(t, s)
    before = M.state(m)
    if t.rng.rand() < .3 and m.n_trees > 1:
        k = int(t.rng.randint(1, m.n_trees + 1))
        m = m.copy(n_trees=k)
        s = M.Spec(s.trees[:k], s.weights[:k], s.base, s.lr, s.n_features)
        before = M.state(m)
    p = M.path(t)
    m.save(p, format='QuickRank')
    after = M.state(m)
    for a in before:
        t.same(after[a], before[a], 'saving changed the model: ' + a)
    r = RTEnsemble(p, format='QuickRank')
    same_trees(t, r, s)
    d = data(t, s.n_features)
    t.same(r.score(d), m.score(d), 'scores after save and reload')
    p2 = M.path(t)
    r.save(p2, format='QuickRank')
    t.check(open(p2).read() == open(p).read(), 'saving the reloaded model gives another file')


# ----------------------------------------------------------------------------------------------------- LightGBM

def lgb_order(tr, r):
    """splits in an order with the root first, leaves in any order; children numbers per split"""
    splits, leaves = [], []

    def collect(nd):
        (splits if nd[0] == 'split' else leaves).append(nd)
        if nd[0] == 'split':
            collect(nd[3])
            collect(nd[4])
    collect(tr)
    rest = splits[1:]
    r.shuffle(rest)
    r.shuffle(leaves)
    splits = splits[:1] + rest
    num = {id(nd): i for i, nd in enumerate(splits)}
    num.update({id(nd): -1 - i for i, nd in enumerate(leaves)})
    return splits, leaves, num


def uniq(tr):
    """fresh nodes, so that they can be told apart by identity"""
    return tuple(list(tr)) if tr[0] == 'leaf' else ('split', tr[1], tr[2], uniq(tr[3]), uniq(tr[4]))


class Fresh(list):
    pass


def fresh(tr):
    return Fresh(tr) if tr[0] == 'leaf' else Fresh(['split', tr[1], tr[2], fresh(tr[3]), fresh(tr[4])])


def splits_only(t, max_leaves=9, max_trees=6, **kw):
    s = M.ensemble(t, max_leaves=max_leaves, max_trees=max_trees, plain=True, **kw)
    s.trees = [fresh(tr if tr[0] == 'split' else M.rand_tree(t, s.n_features, int(t.rng.randint(2, max_leaves + 1)), 'real')) for tr in s.trees]
    s.weights = [1.0] * len(s.trees)
    t.note(model=s.describe())
    return s


def lgb_text(t, s, decision=None, default=None, cat=None, odd=None):
    old = t.rng.rand() < .5
    out = ['tree', 'num_class=1', 'label_index=0', 'max_feature_idx=%d' % (s.n_features - 1), 'objective=lambdarank',
           'feature_names=' + ' '.join('Column_%d' % i for i in range(s.n_features)), 'feature_infos=' + ' '.join('[0:1]' for _ in range(s.n_features)), '']
    for k, tr in enumerate(s.trees):
        sp, lv, num = lgb_order(tr, t.rng)
        here = odd is None or odd == k
        join = lambda xs: ' '.join(str(x) for x in xs)
        out += ['Tree=%d' % k, 'num_leaves=%d' % len(lv)]
        if old:
            out += ['split_feature=' + join(nd[1] for nd in sp), 'split_gain=' + join(1 for _ in sp)]
        else:
            out += ['num_cat=0', 'split_feature=' + join(nd[1] for nd in sp), 'split_gain=' + join(1 for _ in sp)]
        out += ['threshold=' + join(repr(float(nd[2])) for nd in sp)]
        dt = [2] * len(sp)
        if decision is not None and here:
            dt[t.rng.randint(len(sp))] = decision
        out += ['decision_type=' + join(dt)]
        if old or default:
            dv = [0] * len(sp)
            if default and here:
                dv[t.rng.randint(len(sp))] = default
            out += ['default_value=' + join(dv)]
        out += ['left_child=' + join(num[id(nd[3])] for nd in sp), 'right_child=' + join(num[id(nd[4])] for nd in sp)]
        par = {id(c): num[id(nd)] for nd in sp for c in (nd[3], nd[4])}
        out += ['leaf_parent=' + join(par[id(nd)] for nd in lv), 'leaf_value=' + join(repr(float(nd[1])) for nd in lv),
                'leaf_count=' + join(5 for _ in lv), 'internal_value=' + join(0.5 for _ in sp), 'internal_count=' + join(7 for _ in sp)]
        if old or cat:
            out += ['has_categorical=%d' % (1 if cat and here else 0)]
        out += ['shrinkage=%s' % t.pick('0.05', '1', '0.1'), '']
    out += ['feature importances:', 'Column_0=3', '']
    return '\n'.join(out)


@case('C30', 250)
def lightgbm_load(t):
    from rankeval.model import RTEnsemble
    s = splits_only(t, max_leaves=t.pick(3, 9, 40), max_trees=t.pick(1, 3, 8), values=t.pick('dyadic', 'real'))
    m = RTEnsemble(put(t, lgb_text(t, s)), format='LightGBM')
    same_trees(t, m, s)
    t.check(m.base_score is None and m.learning_rate == 1, 'base score or learning rate', got=(m.base_score, m.learning_rate))
    X = features(t, s.n_features, s)
    scored(t, m, X, s.scores(X), 'scores')


@case('C30', 80)
def lightgbm_refused(t):
    from rankeval.model import RTEnsemble
    s = splits_only(t)
    k = t.rng.randint(len(s.trees))
    kind = t.pick('decision', 'default', 'cat')
    kw = {'decision': dict(decision=t.pick(0, 1, 3, 4, 8, 10, 9)), 'default': dict(default=t.pick(1, 0.5, -1)), 'cat': dict(cat=True)}[kind]
    t.note(refused=kw, tree=k)
    p = put(t, lgb_text(t, s, odd=k, **kw))
    t.raises(lambda: RTEnsemble(p, format='LightGBM'), 'a model with %s was accepted' % kind)


# ------------------------------------------------------------------------------------------------------ XGBoost

def thr_text(t, v):
    v = float(np.float32(v))
    return t.pick(repr(v), '%.9g' % v, '%.9g' % v)


def xgb_text(t, s, stats):
    out = []
    for k, tr in enumerate(s.trees):
        out.append('booster[%d]:' % k)
        ids = {}
        # breadth-first numbers, printed depth-first, the smaller branch first as in the dumps
        lvl = [tr]
        while lvl:
            nxt = []
            for nd in lvl:
                ids[id(nd)] = len(ids)
                if nd[0] == 'split':
                    nxt += [nd[3], nd[4]]
            lvl = nxt

        def go(nd, depth):
            st = '' if not stats else ',gain=%s,cover=%s' % (1.5, 10) if nd[0] == 'split' else ',cover=%s' % 2.5
            if nd[0] == 'leaf':
                out.append('\t' * depth + '%d:leaf=%s%s' % (ids[id(nd)], thr_text(t, nd[1]), st))
            else:
                out.append('\t' * depth + '%d:[f%d<%s] yes=%d,no=%d,missing=%d%s' % (ids[id(nd)], nd[1], thr_text(t, nd[2]), ids[id(nd[3])], ids[id(nd[4])], ids[id(nd[3])], st))
                go(nd[3], depth + 1)
                go(nd[4], depth + 1)
        go(tr, 0)
    return '\n'.join(out) + t.pick('\n', '')


def extreme(t, s):
    """thresholds of every sign and magnitude"""
    def go(nd):
        if nd[0] == 'split':
            k = t.rng.randint(8)
            if k == 0:
                nd[2] = np.float32(0.0)
            elif k == 1:
                nd[2] = np.float32(t.rng.choice([1, -1]) * 10.0 ** t.rng.randint(-44, 38))
            elif k == 2:
                nd[2] = np.float32(t.rng.choice([1, -1]) * 2.0 ** t.rng.randint(-149, 127))
            elif k == 3:
                nd[2] = np.float32(t.rng.randint(-5, 1000000))
            elif k == 4:
                nd[2] = np.float32(t.rng.randn())
            go(nd[3])
            go(nd[4])
    for tr in s.trees:
        go(tr)


@case('C31', 250)
def xgboost_load(t):
    from rankeval.model import RTEnsemble
    s = M.ensemble(t, max_leaves=t.pick(3, 9, 40), max_trees=t.pick(1, 3, 8), values=t.pick('dyadic', 'real'), plain=True)
    s.trees = [fresh(tr) for tr in s.trees]
    s.weights = [1.0] * len(s.trees)
    extreme(t, s)
    t.note(model=s.describe())
    base = t.pick(None, None, 0.0, 0.25, -3.0)
    p = put(t, xgb_text(t, s, t.rng.rand() < .5))
    m = RTEnsemble(p, format='XGBoost', base_score=base) if base is not None else RTEnsemble(p, format='XGBoost')
    X = features(t, s.n_features, s)
    with np.errstate(all='ignore'):
        def leaf(tr, x):
            while tr[0] == 'split':
                tr = tr[3] if np.float32(x[tr[1]]) < np.float32(tr[2]) else tr[4]
            return np.float64(np.float32(tr[1]))
        want = [sum(leaf(tr, x) for tr in s.trees) + (0.5 if base is None else base) for x in X]
    scored(t, m, X, want, 'scores')
    t.check(m.n_trees == len(s.trees) and m.n_nodes == sum(M.nodes(tr) for tr in s.trees), 'number of trees or nodes')


# ------------------------------------------------------------------------------------------------- scikit-learn

@case('C32', 60)
def sklearn_export(t):
    from sklearn.ensemble import GradientBoostingRegressor
    from rankeval.model import RTEnsemble, ProxyScikitLearn
    nf = int(t.rng.randint(1, 6))
    n = int(t.rng.randint(4, 60))
    X = (t.rng.randn(n, nf) * t.pick(1, 1, 1e-4, 1e4)).astype(np.float32)
    y = t.rng.randint(0, 5, n) * t.pick(1.0, 1.0, 1e-7, 1e6) + t.pick(0, 0, -3)
    lr = t.pick(0.1, 0.05, 1.0, 1 / 3., 1e-5)
    g = GradientBoostingRegressor(n_estimators=int(t.rng.randint(1, 8)), max_depth=int(t.rng.randint(1, 6)), learning_rate=lr, random_state=int(t.rng.randint(1000)),
                                  loss=t.pick('squared_error', 'squared_error', 'absolute_error'), subsample=t.pick(1.0, .7)).fit(X, y)
    t.note(X=X if X.size < 200 else 'matrix %s' % (X.shape,), y=y, learning_rate=lr, n_estimators=g.n_estimators, max_depth=g.max_depth)
    p = M.path(t, 'txt')
    ProxyScikitLearn.export_scikit_model(g, p)
    m = RTEnsemble(p, format='ScikitLearn')

    def tree(e, i=0):
        tr = e.tree_
        if tr.children_left[i] == -1:
            return ('leaf', np.float32(tr.value[i].ravel()[0]))
        return ('split', int(tr.feature[i]), np.float32(tr.threshold[i]), tree(e, tr.children_left[i]), tree(e, tr.children_right[i]))
    s = M.Spec([tree(e) for e in g.estimators_.ravel()], [1.0] * g.n_estimators_, float(g.init_.constant_.ravel()[0]), lr, nf)
    same_trees(t, m, s)
    t.close(m.base_score, s.base, 'base score', 1e-6)
    t.check(np.float32(m.learning_rate) == np.float32(lr), 'learning rate', got=m.learning_rate, want=lr)
    Z = X[:20].copy()
    scored(t, m, Z, s.scores(Z), 'scores', 1e-3 if abs(y).max() < 1e5 else 1e-2)


@case('C32', 60)
def sklearn_text(t):
    """exported text of arbitrary trees, with the node numbers of scikit-learn (preorder)"""
    from rankeval.model import RTEnsemble
    s = M.ensemble(t, max_leaves=t.pick(3, 9, 40), max_trees=t.pick(1, 3, 8), values=t.pick('dyadic', 'real'))
    s.weights = [1.0] * len(s.trees)
    s.base = float(t.pick(0.5, -2.25, 0.0, 1e-6))
    out = ['base_score=%r' % s.base, 'learning_rate=%r' % float(s.lr)]
    for k, tr in enumerate(s.trees):
        out.append('booster[%d] [%s]:' % (k, ' '.join('f%d' % f for f in sorted({nd[1] for nd in M.preorder(tr) if nd[0] == 'split'}))))
        c = [0]

        def go(nd, depth):
            i = c[0]
            c[0] += 1
            if nd[0] == 'leaf':
                out.append('\t' * depth + '%d:leaf=%r' % (i, float(nd[1])))
            else:
                out.append('\t' * depth + '%d:[f%d<=%r]' % (i, nd[1], float(nd[2])))
                go(nd[3], depth + 1)
                go(nd[4], depth + 1)
        go(tr, 1)
    m = RTEnsemble(put(t, '\n'.join(out) + '\n'), format='ScikitLearn')
    same_trees(t, m, s)
    t.check(m.base_score == s.base and m.learning_rate == s.lr, 'base score or learning rate', got=(m.base_score, m.learning_rate))
    X = features(t, s.n_features, s)
    scored(t, m, X, s.scores(X), 'scores')


# ----------------------------------------------------------------------------------------------------- Jforests

@case('C33', 250)
def jforests_load(t):
    from rankeval.model import RTEnsemble
    s = splits_only(t, max_leaves=t.pick(3, 9, 40), max_trees=t.pick(1, 3, 8), values=t.pick('dyadic', 'real'))
    s.weights = [np.float32(t.pick(1.0, 0.5, 0.1, 2.0, -1.5)) for _ in s.trees]
    t.note(model=s.describe())
    join = lambda xs: ' '.join(str(x) for x in xs)
    out = ['<Ensemble>']
    for k, tr in enumerate(s.trees):
        sp, lv, num = lgb_order(tr, t.rng)
        out += ['\t<Tree id="%d" weight="%r">' % (k + 1, float(s.weights[k])), '\t\t<RegressionTree leaves="%d">' % len(lv), '\t\t\t<SplitFeatures>%s</SplitFeatures>' % join(nd[1] for nd in sp),
                '\t\t\t<LeftChildren>%s</LeftChildren>' % join(num[id(nd[3])] for nd in sp), '\t\t\t<RightChildren>%s</RightChildren>' % join(num[id(nd[4])] for nd in sp),
                '\t\t\t<Thresholds>%s</Thresholds>' % join(int(t.rng.randint(0, 200)) for nd in sp), '\t\t\t<OriginalThresholds>%s</OriginalThresholds>' % join(repr(float(nd[2])) for nd in sp),
                '\t\t\t<LeafOutputs>%s</LeafOutputs>' % join(repr(float(nd[1])) for nd in lv), '\t\t</RegressionTree>', '\t</Tree>']
    out += ['</Ensemble>']
    m = RTEnsemble(put(t, '\n'.join(out) + '\n', 'xml'), format='Jforests')
    same_trees(t, m, s)
    X = features(t, s.n_features, s)
    scored(t, m, X, s.scores(X), 'scores')


# ----------------------------------------------------------------------------------------------------- CatBoost

def coreml(t, s, bad=None):
    import coremltools
    spec = coremltools.proto.Model_pb2.Model()
    spec.specificationVersion = 1
    te = spec.treeEnsembleRegressor.treeEnsemble
    te.numPredictionDimensions = 1
    te.basePredictionValue.append(0.0)
    B = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior
    i = spec.description.input.add()
    i.name = 'f'
    i.type.multiArrayType.shape.append(s.n_features)
    i.type.multiArrayType.dataType = 65568
    o = spec.description.output.add()
    o.name = 'prediction'
    o.type.doubleType.SetInParent()
    spec.description.predictedFeatureName = 'prediction'
    inter = t.rng.rand() < .2
    per = []
    for k, tr in enumerate(s.trees):
        ids, order = {}, []
        # children before parents, the root last: either postorder or by levels from below
        if t.rng.rand() < .5:
            def post(nd):
                if nd[0] == 'split':
                    for c in ((nd[3], nd[4]) if t.rng.rand() < .5 else (nd[4], nd[3])):
                        post(c)
                ids[id(nd)] = len(order)
                order.append(nd)
            post(tr)
        else:
            lvl, rows = [tr], []
            while lvl:
                rows.append(lvl)
                lvl = [c for nd in lvl if nd[0] == 'split' for c in (nd[3], nd[4])]
            for row in reversed(rows):
                for nd in row:
                    ids[id(nd)] = len(order)
                    order.append(nd)
        here = []
        for nd in order:
            n = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode()
            n.treeId, n.nodeId = k, ids[id(nd)]
            if nd[0] == 'leaf':
                n.nodeBehavior = B.Value('LeafNode')
                e = n.evaluationInfo.add()
                e.evaluationIndex, e.evaluationValue = 0, float(nd[1])
            else:
                gt = t.rng.rand() < .6
                n.nodeBehavior = B.Value('BranchOnValueGreaterThan' if gt else 'BranchOnValueLessThanEqual')
                if bad is not None and nd is tr and k == bad[1]:
                    n.nodeBehavior = B.Value(bad[0])
                n.branchFeatureIndex, n.branchFeatureValue = nd[1], float(nd[2])
                l, r = ids[id(nd[3])], ids[id(nd[4])]
                n.falseChildNodeId, n.trueChildNodeId = (l, r) if gt else (r, l)
            here.append(n)
        per.append(here)
    if inter:       # trees of the file interleaved
        while any(per):
            k = [i for i, h in enumerate(per) if h][t.rng.randint(len([h for h in per if h]))]
            te.nodes.extend([per[k].pop(0)])
    else:
        for h in per:
            te.nodes.extend(h)
    p = M.path(t, 'mlmodel')
    with open(p, 'wb') as f:
        f.write(spec.SerializeToString())
    return p


@case('C34', 150)
def catboost_load(t):
    from rankeval.model import RTEnsemble
    s = M.ensemble(t, max_leaves=t.pick(3, 9, 30), max_trees=t.pick(1, 3, 8), values=t.pick('dyadic', 'real'), plain=True)
    s.trees = [fresh(tr) for tr in s.trees]
    s.weights = [1.0] * len(s.trees)
    m = RTEnsemble(coreml(t, s), format='CatBoost')
    same_trees(t, m, s)
    X = features(t, s.n_features, s)
    scored(t, m, X, s.scores(X), 'scores')


@case('C34', 30)
def catboost_refused(t):
    from rankeval.model import RTEnsemble
    s = splits_only(t)
    bad = (t.pick('BranchOnValueLessThan', 'BranchOnValueGreaterThanEqual', 'BranchOnValueEqual', 'BranchOnValueNotEqual'), int(t.rng.randint(len(s.trees))))
    t.note(behaviour=bad)
    p = coreml(t, s, bad)
    t.raises(lambda: RTEnsemble(p, format='CatBoost'), 'branch condition accepted')
