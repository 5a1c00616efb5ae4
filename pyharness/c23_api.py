"""C23: every sequence of calls of the Python API, against a map of lists."""
import gc
import itertools
import json
import math
import os
import re

from pyref import attempt, compare_column, compare_store, f32, fits, model, near, same_model, scores

NAN = float('nan')
INF = float('inf')
# Values of columns: by type, by length.
VALUES = {
    'b': {3: [1.5, NAN, 2.0], 2: [4.0, 4.0], 0: [], 'w': [INF, 3.0, -INF]},
    'r': {3: [0.25, -7.0, NAN], 2: [1.0, 2.0], 0: [], 'w': [INF, 3.0, f32(0.1)]},
    's': {3: ['x', '', 'x'], 2: ['q', 'r'], 0: [], 'w': [u'\u00e9', 'y z', '__missing__x']},
}


class World(object):
    def __init__(self, gbdt, scratch):
        self.g = gbdt
        self.scratch = scratch
        self.ds, self.m = gbdt.DataLoader.from_dict(), {}
        self.ds2, self.m2 = None, None
        self.held = []

    def rows(self):
        return len(next(iter(self.m.values()))[1]) if self.m else 0


def op_add(name, t, length):
    def run(r, w):
        values = VALUES[t][length]
        add = dict(b=w.ds.add_bucketized_float_col, r=w.ds.add_raw_float_col, s=w.ds.add_string_col)[t]
        raised, e = attempt(lambda: add(name, list(values)))
        ok = name not in w.m and (not w.m or w.rows() == len(values))
        r.check(raised == (not ok), lambda: 'adding %s: %r' % (name, e))
        if ok:
            w.m[name] = (t, list(values))
    return 'add %s %s[%s]' % (name, t, length), run


def op_add_bad(name, t, values):
    def run(r, w):
        add = dict(b=w.ds.add_bucketized_float_col, r=w.ds.add_raw_float_col, s=w.ds.add_string_col)[t]
        raised, e = attempt(lambda: add(name, values))
        r.check(raised, lambda: '%s is taken as a column of type %s' % (values, t))
    return 'add %s %s=%r' % (name, t, values), run


def op_erase(name):
    def run(r, w):
        w.ds.erase(name)
        w.m.pop(name, None)
    return 'erase ' + name, run


def op_hold(name):
    def run(r, w):
        raised, col = attempt(lambda: w.ds[name])
        r.check(raised == (name not in w.m), lambda: 'reading column %s: %r' % (name, col))
        if not raised:
            w.held.append((col, name, w.m[name]))
    return 'hold ' + name, run


def op_get_as(name, t):
    def run(r, w):
        d = w.ds._data_store
        get = dict(b=d.get_bucketized_float_col, r=d.get_raw_float_col, s=d.get_string_col)[t]
        raised, col = attempt(lambda: get(name))
        r.check(raised == (name not in w.m or w.m[name][0] != t), lambda: 'reading column %s as %s: %r' % (name, t, col))
    return 'get %s as %s' % (name, t), run


def op_slice(what, rows):
    def run(r, w):
        raised, got = attempt(lambda: w.ds[what])
        n = w.rows()
        bad = bool(w.m) and any(i >= n for i in rows)
        # Negative positions are not used: lists and columns differ.
        r.check(raised == bad, lambda: 'slice %r: %r' % (what, got))
        if not raised:
            w.ds2 = got
            w.m2 = dict((k, (t, [v[i] for i in rows])) for k, (t, v) in w.m.items())
    return 'ds2 = ds[%r]' % (what,), run


def op_copy():
    def run(r, w):
        # What is done to the copy has no influence on the original.
        w.ds2, w.m2 = w.ds, dict(w.m)
        w.ds = w.ds.copy()
        w.m = dict(w.m)
    return 'ds2, ds = ds, copy', run


def op_swap():
    def run(r, w):
        if w.ds2 is not None:
            w.ds, w.ds2, w.m, w.m2 = w.ds2, w.ds, w.m2, w.m
    return 'swap', run


def op_clear():
    def run(r, w):
        w.ds._data_store.clear()
        w.m = {}
    return 'clear', run


def op_new():
    def run(r, w):
        w.ds = None
        gc.collect(0)
        w.ds, w.m = w.g.DataLoader.from_dict(), {}
    return 'drop ds', run


def op_from_dict(kind):
    def run(r, w):
        args = dict(bucketized_float_cols={'a': VALUES['b'][3]}, string_cols={'b': VALUES['s'][3]}, raw_float_cols={'c': VALUES['r'][3]})
        if kind == 'short':
            args['string_cols'] = {'b': ['x']}
        if kind == 'twice':
            args['string_cols'] = {'a': ['x', 'y', 'z']}
        raised, ds = attempt(lambda: w.g.DataLoader.from_dict(**args))
        r.check(raised == (kind != 'good'), lambda: 'from_dict %s: %r' % (kind, ds))
        if not raised:
            w.ds, w.m = ds, dict(a=('b', VALUES['b'][3]), b=('s', VALUES['s'][3]), c=('r', VALUES['r'][3]))
    return 'from_dict ' + kind, run


def op_tsv(kind, into):
    def run(r, w):
        f1, f2 = os.path.join(w.scratch, 'one.tsv'), os.path.join(w.scratch, 'two.tsv')
        with open(f1, 'w') as f:
            f.write('a\tb\tunused\tc\n1.5\tu\tq\t7\n')
        with open(f2, 'w') as f:
            f.write('nan\tv\tq\t8\n')
        kw = dict(tsvs=[f1, f2], bucketized_float_cols=['a'], string_cols=['b'], raw_float_cols=['c'])
        if kind == 'no file':
            kw['tsvs'] = [f1, f2 + '.nowhere']
        if kind == 'no column':
            kw['string_cols'] = ['nowhere']
        if kind == 'no tsv':
            kw['tsvs'] = []
        if kind == 'type':
            kw['raw_float_cols'] = ['b']
        if kind == 'empty':
            kw['tsvs'] = [f1]
            with open(f1, 'w') as f:
                f.write('a\tb\tunused\tc\n')
        ok = kind in ('good', 'empty')
        if into:
            raised, e = attempt(lambda: w.ds._data_store.load_tsv(**kw))
        else:
            raised, e = attempt(lambda: w.g.DataLoader.from_tsvs(**kw))
        r.check(raised == (not ok), lambda: 'loading tsvs, %s: %r' % (kind, e))
        if not raised:
            if not into:
                w.ds = e
            w.m = dict(a=('b', [1.5, NAN]), b=('s', ['u', 'v']), c=('r', [7.0, 8.0]))
            if kind == 'empty':
                w.m = dict(a=('b', []), b=('s', []), c=('r', []))
    return ('load_tsv ' if into else 'from_tsvs ') + kind, run


STORE_OPS = [
    op_add('a', 'b', 3), op_add('a', 'r', 3), op_add('a', 's', 3), op_add('b', 's', 'w'), op_add('b', 'b', 'w'), op_add('b', 'r', 2), op_add('b', 's', 0),
    op_add_bad('b', 'b', ['p', 'q', 'r']), op_add_bad('b', 's', [1, 2, 3]), op_erase('a'), op_erase('b'), op_erase('zz'), op_hold('a'), op_hold('b'), op_hold('zz'),
    op_get_as('a', 's'), op_get_as('a', 'b'), op_get_as('b', 'r'), op_slice(0, [0]), op_slice((0, 2), [0, 1]), op_slice([2, 0, 0], [2, 0, 0]), op_slice([], []),
    op_slice(5, [5]), op_copy(), op_swap(), op_clear(), op_new(), op_from_dict('good'), op_from_dict('short'), op_from_dict('twice'), op_tsv('good', True),
    op_tsv('no file', True), op_tsv('no column', True), op_tsv('type', True), op_tsv('no tsv', True), op_tsv('empty', True), op_tsv('good', False), op_tsv('no file', False),
]


def run_store_ops(r, gbdt, ops):
    w = World(gbdt, r.scratch)
    for _, run in ops:
        run(r, w)
        r.step()
    compare_store(r, gbdt, w.ds, w.m, 'the data store')
    if w.ds2 is not None:
        compare_store(r, gbdt, w.ds2, w.m2, 'the slice')
    for col, name, want in w.held:
        compare_column(r, gbdt, col, name, want, 'held')
    r.state(sorted(w.m.items()), sorted((w.m2 or {}).items()), [(n, v) for _, n, v in w.held])
    w.ds = w.ds2 = None
    gc.collect(0)
    for col, name, want in w.held:
        compare_column(r, gbdt, col, name, want, 'held after its data store was dropped')


# ---------------------------------------------------------------- training and prediction

N = 8
DATA = {
    'f': ('b', [3.0, 1.0, NAN, 7.0, 2.0, 9.0, 4.5, 0.5]),
    'g': ('b', [0.25, 8.0, 1.0, 5.5, 2.25, 7.0, -1.0, 3.0]),
    's': ('s', ['a', 'b', 'c', 'a', 'd', 'b', 'c', 'e']),
    'group': ('s', ['x', 'x', 'x', 'x', 'y', 'y', 'y', 'y']),
    'y': ('r', [1.0, -0.5, 2.5, 2.0 ** -20, -3.0, 0.0, 4.0, 1.5]),
    'w': ('r', [1.0, 2.0, 0.5, 1.0, 3.0, 0.0, 1.0, 2.0]),
}
OTHER = {'f': ('s', ['a', 'b', 'a', 'b', 'a', 'b', 'a', 'b']), 's': ('b', [float(i) for i in range(N)]),
         'g': ('b', [3.0, NAN, 1.0, 0.0, 2.0, 2.0, 9.0, NAN])}


def make(gbdt, m):
    ds = gbdt.DataLoader.from_dict()
    # Always in the same order.
    for k in sorted(m):
        t, v = m[k]
        dict(b=ds.add_bucketized_float_col, r=ds.add_raw_float_col, s=ds.add_string_col)[t](k, v)
    return ds


def config(**kw):
    c = dict(loss_func='mse', num_trees=2, num_leaves=3, shrinkage=0.5, l2_lambda=0.5)
    c.update(kw)
    return dict((k, v) for k, v in c.items() if v is not None)


Y = DATA['y'][1]
W = DATA['w'][1]
# Calls of train: arguments; whether they are invalid whatever the data store is; columns they need (type by name).
TRAIN = {
    'plain': (dict(y=Y), False, {}),
    'weights': (dict(y=Y, w=W), False, {}),
    'columns': (dict(config=dict(target_column='y', weight_column='w')), False, {'y': 'r', 'w': 'r'}),
    'binarized': (dict(y=Y, config=dict(loss_func='logloss', binarize_target=True)), False, {}),
    'ranking': (dict(y=Y, config=dict(loss_func='pairwise_logloss', pair_sampling_rate=3, group_column='group')), False, {'group': 's'}),
    'three threads': (dict(y=Y, num_threads=3, random_seed=5, config=dict(example_sampling_rate=0.7)), False, {}),
    'short y': (dict(y=Y[:-1]), True, {}),
    'long w': (dict(y=Y, w=W + [1.0]), True, {}),
    'no y': (dict(), True, {}),
    'no features': (dict(y=Y, features=[]), True, {}),
    'unknown feature': (dict(y=Y, features=['f', 'nowhere']), True, {}),
    'raw feature': (dict(y=Y, features=['f', 'w']), True, {}),
    'no trees': (dict(y=Y, config=dict(num_trees=0)), True, {}),
    'no feature rate': (dict(y=Y, config=dict(feature_sampling_rate=0)), True, {}),
    'no example rate': (dict(y=Y, config=dict(example_sampling_rate=0)), True, {}),
    'no pair rate': (dict(y=Y, config=dict(loss_func='auc', pair_sampling_rate=0)), True, {}),
    'unknown loss': (dict(y=Y, config=dict(loss_func='nothing')), True, {}),
    'unknown setting': (dict(y=Y, config=dict(nothing=1)), True, {}),
    'wrong setting': (dict(y=Y, config=dict(num_trees='many')), True, {}),
    'not binary': (dict(y=Y, config=dict(loss_func='logloss')), True, {}),
    'no threads': (dict(y=Y, num_threads=0), True, {}),
    'no weight column': (dict(y=Y, config=dict(weight_column='nowhere')), True, {}),
    'no group column': (dict(y=Y, config=dict(group_column='nowhere')), True, {}),
    'y of words': (dict(y=['a'] * N), True, {}),
}


class Model(object):
    """What training gives for a store with certain contents, computed once in a fresh store."""

    def __init__(self, gbdt):
        self.gbdt = gbdt
        self.memo = {}

    def train(self, ds, m, kind, base):
        kw = dict(TRAIN[kind][0])
        kw['config'] = config(**kw.get('config', {}))
        kw.setdefault('features', ['f', 'g', 's'])
        kw.setdefault('num_threads', 2)
        return self.gbdt.train(ds, base_forest=base, **kw)

    def expected(self, m, kind, base):
        """None: has to be rejected."""
        _, bad, need = TRAIN[kind]
        features = TRAIN[kind][0].get('features', ['f', 'g', 's'])
        n = len(next(iter(m.values()))[1]) if m else 0
        if bad or not m or any(k not in m or m[k][0] == 'r' for k in features) or any(k not in m or m[k][0] != t for k, t in need.items()):
            return None
        if n != N and TRAIN[kind][0].get('y'):
            return None
        if base is not None and not fits(model(base), m):
            return None
        key = (repr(sorted(m.items())), kind, None if base is None else json.dumps(model(base)))
        if key not in self.memo:
            self.memo[key] = model(self.train(make(self.gbdt, m), m, kind, base))
        return self.memo[key]


class World2(object):
    def __init__(self, gbdt, mod):
        self.g, self.mod = gbdt, mod
        self.m = dict(DATA)
        self.ds = make(gbdt, self.m)
        self.forest = None
        self.f = None


def op_train(kind, with_base):
    def run(r, w):
        base = w.forest if with_base else None
        if with_base and base is None:
            return
        want = w.mod.expected(w.m, kind, base)
        raised, got = attempt(lambda: w.mod.train(w.ds, w.m, kind, base))
        r.check(raised == (want is None), lambda: 'training (%s) %s' % (kind, 'raises %r' % got if raised else 'accepts what is wrong'))
        if not raised:
            f = model(got)
            r.check(same_model(f, want, w.m, len(w.ds)), lambda: 'training (%s) gives\n%s\ninstead of\n%s' % (kind, f, want))
            w.forest, w.f = got, f
    return 'train %s%s' % (kind, ' on the forest' if with_base else ''), run


def check_scores(r, got, want, what):
    r.check(len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), lambda: '%s are %r instead of %r' % (what, list(got), want))


def op_predict():
    def run(r, w):
        if w.forest is None:
            return
        raised, got = attempt(lambda: w.forest.predict(w.ds))
        bad = not w.m or not fits(w.f, w.m)
        r.check(raised == bad, lambda: 'predict: %r' % (got,))
        if not raised:
            check_scores(r, got, scores(w.f, w.m, len(w.ds)), 'predictions')
    return 'predict', run


def op_checkpoints(points):
    def run(r, w):
        if w.forest is None:
            return
        raised, got = attempt(lambda: list(w.forest.predict_at_checkpoints(w.ds, points)))
        trees = len(w.f['tree'])
        bad = not w.m or not fits(w.f, w.m) or any(p <= 0 or p > trees for p in points)
        r.check(raised == bad, lambda: 'predict_at_checkpoints(%r): %r' % (points, got))
        if not raised:
            r.check([p for p, _ in got] == points, lambda: 'checkpoints %r' % [p for p, _ in got])
            for p, s in got:
                check_scores(r, s, scores(w.f, w.m, len(w.ds), p), 'predictions at checkpoint %d' % p)
        left = [x for x in os.listdir(os.environ['TMPDIR']) if x.startswith('tmp')]
        r.check(not left, lambda: 'files are left: %r' % left)
    return 'predict at %r' % points, run


def op_roundtrip():
    def run(r, w):
        if w.forest is not None:
            w.forest = w.g.Forest(str(w.forest))
            r.check(model(w.forest) == w.f, lambda: 'the forest is %s instead of %s' % (model(w.forest), w.f))
    return 'forest = Forest(str(forest))', run


def op_bad_forest(text):
    def run(r, w):
        raised, e = attempt(lambda: w.g.Forest(text))
        r.check(raised, lambda: '%r is a forest: %s' % (text, e))
    return 'Forest(%r)' % (text,), run


def op_importance():
    def run(r, w):
        if w.forest is None:
            return
        got = w.forest.feature_importance()
        want = {}

        def add(n):
            if 'leftChild' in n:
                want[n['split']['feature']] = want.get(n['split']['feature'], 0) + n['split']['gain']
                add(n['leftChild'])
                add(n['rightChild'])
        for t in w.f['tree']:
            add(t)
        top = max(want.values()) if want else 1
        r.check(len(got) == len(want) and all(k in want and near(v, want[k] / top) for k, v in got), lambda: 'importance %r' % (got,))
        r.check([v for _, v in got] == sorted((v for _, v in got), reverse=True), lambda: 'order of the importance %r' % (got,))
        r.check(w.forest.features() == [k for k, _ in got], lambda: 'features')
    return 'importance', run


def op_replace(name):
    def run(r, w):
        w.ds.erase(name)
        t, v = OTHER[name]
        add = dict(b=w.ds.add_bucketized_float_col, s=w.ds.add_string_col)[t]
        w.m.pop(name, None)
        raised, e = attempt(lambda: add(name, v))
        ok = not w.m or len(next(iter(w.m.values()))[1]) == N
        r.check(raised == (not ok), lambda: 'adding: %r' % e)
        if ok:
            w.m[name] = (t, v)
    return 'replace ' + name, run


def op2(name, f):
    return name, lambda r, w: f(w)


def half(w):
    if len(w.ds) >= 4:
        w.ds = w.ds[[1, 3, 2]]
        w.m = dict((k, (t, [v[i] for i in (1, 3, 2)])) for k, (t, v) in w.m.items())


def copy(w):
    w.ds = w.ds.copy()
    w.m = dict(w.m)


def clear(w):
    w.ds._data_store.clear()
    w.m = {}


def erase(name):
    def f(w):
        w.ds.erase(name)
        w.m.pop(name, None)
    return f


def fresh(w):
    w.ds = None
    gc.collect(0)
    w.m = dict(DATA)
    w.ds = make(w.g, w.m)


LEARN_OPS = [op_train(k, False) for k in sorted(TRAIN)] + [op_train(k, True) for k in ('plain', 'ranking', 'short y')] + [
    op_predict(), op_checkpoints([1, 2]), op_checkpoints([3, 1]), op_checkpoints([]), op_checkpoints([0]), op_checkpoints([99]), op_checkpoints([2, 2]), op_roundtrip(),
    op_bad_forest('{'), op_bad_forest('{"tree": 5}'), op_bad_forest(5), op_importance(), op_replace('f'), op_replace('s'), op_replace('g'),
    op2('rows 1, 3, 2', half), op2('ds = copy', copy), op2('clear', clear), op2('erase g', erase('g')), op2('erase s', erase('s')), op2('erase w', erase('w')), op2('drop ds', fresh)]


def run_learn_ops(r, gbdt, mod, ops):
    w = World2(gbdt, mod)
    for _, run in ops:
        run(r, w)
        r.step()
    compare_store(r, gbdt, w.ds, w.m, 'the data store', ('f', 's', 'zz'))
    r.state(sorted(w.m.items()), None if w.f is None else json.dumps(w.f, sort_keys=True))


# ---------------------------------------------------------------- arguments of other types

JUNK = [None, 5, -1, 2 ** 40, 0.5, NAN, 'x', b'\xff', [], [None], ['a', 1], [NAN], {}, object(), (), 'DS', 'FOREST', 'LIBDS', 'LIBFOREST', True, [[1.0]], u'\ud800', 'a\0b', 'f', 's', [0, 2], Y, ['a'] * N]


def junk_calls(gbdt):
    """Name, number of arguments, call(ds, forest, args)."""
    lib = gbdt._forest.libgbdt
    out = []
    for name, n in (('add_bucketized_float_col', 2), ('add_raw_float_col', 2), ('add_string_col', 2), ('erase', 1), ('slice', 1), ('__getitem__', 1), ('__contains__', 1)):
        out.append(('DataStore.' + name, n, lambda ds, f, a, name=name: getattr(ds, name)(*a)))
    for name, n in (('load_tsv', 1), ('load_tsv', 4), ('get_bucketized_float_col', 1), ('get_raw_float_col', 1), ('get_string_col', 1), ('get_column_type', 1)):
        out.append(('lib DataStore.' + name, n, lambda ds, f, a, name=name: getattr(ds._data_store, name)(*a)))
    out.append(('Forest', 1, lambda ds, f, a: gbdt.Forest(*a)))
    out.append(('lib.Forest', 1, lambda ds, f, a: lib.Forest(*a)))
    out.append(('Forest.predict', 1, lambda ds, f, a: f.predict(*a)))
    out.append(('lib Forest.predict', 1, lambda ds, f, a: f._forest.predict(*a)))
    out.append(('Forest.predict_at_checkpoints', 2, lambda ds, f, a: list(f.predict_at_checkpoints(*a))))
    out.append(('checkpoints', 1, lambda ds, f, a: list(f.predict_at_checkpoints(ds, *a))))
    out.append(('train', 2, lambda ds, f, a: gbdt.train(ds, config(), y=a[0], features=a[1], num_threads=1)))
    out.append(('train config', 1, lambda ds, f, a: gbdt.train(ds, a[0], y=Y, features=['f'], num_threads=1)))
    out.append(('train w, base', 2, lambda ds, f, a: gbdt.train(ds, config(), y=Y, features=['f'], w=a[0], base_forest=a[1], num_threads=1)))
    out.append(('train seed', 1, lambda ds, f, a: gbdt.train(ds, config(), y=Y, features=['f'], random_seed=a[0], num_threads=1)))
    out.append(('lib.train', 3, lambda ds, f, a: lib.train(a[0], y=a[1], config=a[2])))
    for name in ('string', 'float', 'raw'):
        out.append(('column[] ' + name, 1, lambda ds, f, a, name=name: ds[dict(string='s', float='f', raw='y')[name]][a[0]]))
    return out


def junk(x, ds, forest):
    if isinstance(x, str):
        return dict(DS=ds, FOREST=forest, LIBDS=ds._data_store, LIBFOREST=forest._forest).get(x, x)
    return x


def show(x):
    return 'object()' if type(x) is object else repr(x)


def body(r, gbdt):
    # 1. Sequences of calls of data stores.
    for depth in range(1, 5 if r.thorough else 4):
        for ops in itertools.product(STORE_OPS, repeat=depth):
            if r.next(lambda ops=ops: '; '.join(o[0] for o in ops)):
                run_store_ops(r, gbdt, ops)
            if r.done():
                return
    # 2. Sequences of training, predicting and changing data, all after a first training.
    mod = Model(gbdt)
    for first in (op_train('plain', False), op_train('ranking', False)):
        for depth in range(0, 4 if r.thorough else 3):
            for ops in itertools.product(LEARN_OPS, repeat=depth):
                if r.next(lambda ops=ops: '; '.join(o[0] for o in (first,) + ops)):
                    run_learn_ops(r, gbdt, mod, (first,) + ops)
                if r.done():
                    return
    # 3. The arguments of train mean the same however they are given.
    for features in itertools.permutations(['f', 'g', 's']):
        for loss in ('mse', 'lambdamart', 'logloss'):
            for target, weight, give in itertools.product(('list', 'column', 'both'), ('none', 'list', 'column', 'both'), ('list', 'tuple')):
                if not r.next('train %s %s target %s weight %s %s' % (loss, features, target, weight, give)):
                    continue
                binary = loss == 'logloss'
                ds = make(gbdt, DATA)
                forests = []
                for canonical in (False, True):
                    c = config(loss_func=loss, pair_sampling_rate=3)
                    kw = dict(features=list(features), num_threads=1)
                    if binary and (not canonical or target == 'column'):
                        c['binarize_target'] = True
                    if canonical:
                        kw['y'] = [1.0 if y > 0 else -1.0 for y in Y] if binary else Y
                        if weight != 'none':
                            kw['w'] = W
                    else:
                        if target == 'column':
                            c['target_column'] = 'y'
                        else:
                            kw['y'] = Y if give == 'list' else tuple(Y)
                            if target == 'both':
                                c['target_column'] = 'w'
                        if weight in ('list', 'both'):
                            kw['w'] = W if give == 'list' else tuple(W)
                        if weight in ('column', 'both'):
                            # The list counts when both are there.
                            c['weight_column'] = 'w' if weight == 'column' else 'y'
                    forests.append(model(gbdt.train(ds, c, **kw)))
                r.check(same_model(forests[0], forests[1], DATA, N), lambda: 'training gives\n%s\ninstead of\n%s' % tuple(forests))
                r.step(2)
                if loss == 'mse':
                    c = config(num_leaves=1, num_trees=1)
                    kw = dict(y=Y)
                    if weight != 'none':
                        kw['w'] = W
                    f = model(gbdt.train(ds, c, features=['f'], **kw))
                    ww = [1.0] * N if weight == 'none' else W
                    mean = sum(a * b for a, b in zip(ww, Y)) / sum(ww)
                    r.check(all(near(s, mean) for s in scores(f, DATA, N)), lambda: 'the constant is %s instead of %s' % (f, mean))
                r.state(json.dumps(forests[0], sort_keys=True))
    # 4. Arguments of any type.
    calls = junk_calls(gbdt)
    for k, (name, n, call) in enumerate(calls):
        for args in itertools.product(range(len(JUNK)), repeat=n if n < 3 else 1):
            if n >= 3:
                sets = [[JUNK[args[0]] if i == at else good for i, good in enumerate(
                    ('LIBDS', Y, json.dumps(config(float_feature=['f'], example_sampling_rate=1, feature_sampling_rate=1))) if name == 'lib.train' else ([], [], [], []))] for at in range(n)]
            else:
                sets = [[JUNK[i] for i in args]]
            for vals in sets:
                if not r.next(lambda: '%s(%s)' % (name, ', '.join(show(v) for v in vals))):
                    continue
                ds = make(gbdt, DATA)
                forest = gbdt.Forest(FOREST)
                before = set(DATA)
                raised, got = attempt(lambda: call(ds, forest, [junk(v, ds, forest) for v in vals]))
                r.step()
                r.count('raised' if raised else 'accepted')
                if name == 'DataStore.erase' and not raised:
                    before -= {vals[0]} if isinstance(vals[0], str) else set()
                if vals[0] == b'\xff' and not raised:
                    # A column name that is no text can not be listed: what becomes of it is left open.
                    r.state(name, 'bytes')
                    continue
                after = set(ds.cols())
                if raised:
                    r.check(after == before, 'a call that raised changed the columns: %r' % after)
                    compare_store(r, gbdt, ds, DATA, 'after an exception: the data store')
                elif name.startswith('DataStore.add'):
                    r.check(len(after) <= len(before) + 1, 'columns')
                r.state(name, raised, type(got).__name__)
    # 5. pandas.
    body_df(r, gbdt)
    # 6. What is left over from one call has no influence on the next.
    body_again(r, gbdt)
    body_reuse(r, gbdt)
    body_values(r, gbdt)
    # 7. What columns look like.
    body_repr(r, gbdt)
    # 8. Logging.
    body_logging(r, gbdt)


def body_values(r, gbdt):
    # Weights and targets of every size, as lists and as columns.
    sizes = [1e-6, 0.25, 1, 300, 70000, 1e9]
    for weights in itertools.product(sizes, repeat=3):
        for how in ('list', 'column'):
            if not r.next(lambda: 'weights %s as %s' % (weights, how)):
                continue
            w = [weights[i % 3] for i in range(N)]
            ds = make(gbdt, DATA)
            for loss in ('mse',):
                kw, c = dict(y=Y), config(num_leaves=1, num_trees=1, loss_func=loss)
                if how == 'list':
                    kw['w'] = w
                else:
                    ds.add_raw_float_col('ww', w)
                    c['weight_column'] = 'ww'
                f = model(gbdt.train(ds, c, features=['f'], **kw))
                mean = sum(a * b for a, b in zip(w, Y)) / sum(w)
                r.step()
                r.state(weights)
                r.check(all(near(s, mean) for s in scores(f, DATA, N)), lambda: 'the constant is %s instead of %s' % (f, mean))
    for targets in itertools.product([-1e9, -3000, -0.5, 0, 2, 70000, 1e7], repeat=3):
        for how in ('list', 'column'):
            if not r.next(lambda: 'targets %s as %s' % (targets, how)):
                continue
            y = [float(targets[i % 3]) for i in range(N)]
            ds = make(gbdt, DATA)
            kw, c = dict(), config(num_leaves=1, num_trees=1)
            if how == 'list':
                kw['y'] = y
            else:
                ds.add_raw_float_col('yy', y)
                c['target_column'] = 'yy'
            f = model(gbdt.train(ds, c, features=['f'], **kw))
            mean, size = sum(y) / N, max(abs(v) for v in y)
            r.step()
            r.state('y', targets)
            r.check(all(abs(s - mean) <= 1e-5 * size + 1e-9 for s in scores(f, DATA, N)), lambda: 'the constant is %s instead of %s' % (f, mean))


def body_again(r, gbdt):
    # The same settings (a dict that train may complete) for several calls.
    lists = [['f', 'g', 's'], ['s'], ['g'], [], ['nowhere'], ['f', 'w'], ('f', 'g')]
    extra = [dict(), dict(loss_func='logloss', binarize_target=True), dict(example_sampling_rate=0.75), dict(feature_sampling_rate=0.9)]
    for n in (2, 3):
        for seq in itertools.product(range(len(lists)), repeat=n):
            for e in extra if n == 2 or r.thorough else extra[:1]:
                if not r.next(lambda: 'the same settings %s for features %s' % (e, [lists[i] for i in seq])):
                    continue
                c, ds = config(**e), make(gbdt, DATA)
                for i in seq:
                    bad = not lists[i] or not set(lists[i]) <= {'f', 'g', 's'}
                    raised, got = attempt(lambda: gbdt.train(ds, c, y=Y, features=lists[i], num_threads=1))
                    r.check(raised == bad, lambda: 'features %s: %r' % (lists[i], got))
                    if not raised:
                        want = model(gbdt.train(make(gbdt, DATA), config(**e), y=Y, features=lists[i], num_threads=1))
                        r.check(same_model(model(got), want, DATA, N), lambda: 'features %s: %s instead of %s' % (lists[i], model(got), want))
                        r.check(all(c[k] == v for k, v in config(**e).items()), lambda: 'the settings became %s' % c)
                    r.step()
                r.state(seq, sorted(e))
    # The seed decides.
    seeds = [0, 1, -1, 7, 1234567, 2 ** 31 - 1, -2 ** 31]
    for loss in ('mse', 'pairwise_logloss', 'lambdamart'):
        for rates in (dict(example_sampling_rate=0.5), dict(feature_sampling_rate=0.5), dict(example_sampling_rate=0.5, feature_sampling_rate=0.7)):
            for threads in (1, 3):
                if not r.next('seeds, %s %s %d threads' % (loss, rates, threads)):
                    continue
                c = config(loss_func=loss, num_trees=4, pair_sampling_rate=2, **rates)
                ds = make(gbdt, DATA)
                seen = {}
                for first, second in itertools.product(seeds, seeds):
                    for seed in (first, second):
                        f = json.dumps(model(gbdt.train(ds, dict(c), y=Y, features=['f', 'g', 's'], random_seed=seed, num_threads=threads)), sort_keys=True)
                        r.check(seen.setdefault(seed, f) == f, lambda: 'seed %d gives\n%s\nand\n%s' % (seed, seen[seed], f))
                        r.step()
                r.check(len(set(seen.values())) > 1, 'all seeds give the same forest')
                r.state(loss, sorted(rates), sorted(seen.values()))
    # Predictions at checkpoints are read when they are asked for: all orders of asking two of them.
    trees = [json.loads(FOREST), {'tree': [{'score': 1.5}, {'score': -8}, {'score': 0.25}]}]
    points = [[1, 2], [2, 1], [2], [1]]
    for pa, pb in itertools.product(points, points):
        for order in itertools.product('ab', repeat=len(pa) + len(pb)):
            for keep in (True, False):
                if not r.next('checkpoints %s and %s in the order %s%s' % (pa, pb, ''.join(order), '' if keep else ', the first one is dropped')):
                    continue
                ds = make(gbdt, DATA)
                forests = [gbdt.Forest(json.dumps(t)) for t in trees]
                gens = dict(a=forests[0].predict_at_checkpoints(ds, list(pa)), b=forests[1].predict_at_checkpoints(ds, list(pb)))
                if not keep:
                    forests = None
                todo = dict(a=list(pa), b=list(pb))
                for which in order:
                    raised, got = attempt(lambda: next(gens[which]))
                    if not todo[which]:
                        r.check(raised and isinstance(got, StopIteration), lambda: 'after the last checkpoint: %r' % (got,))
                        continue
                    r.check(not raised, lambda: 'checkpoints: %r' % (got,))
                    p = todo[which].pop(0)
                    r.check(got[0] == p, lambda: 'checkpoint %s instead of %d' % (got[0], p))
                    check_scores(r, got[1], scores(trees[which == 'b'], DATA, N, p), 'predictions at checkpoint %d' % p)
                    if not keep and which == 'b':
                        gens['a'].close()
                        todo['a'] = []
                    r.step()
                gens = None
                gc.collect(0)
                left = [x for x in os.listdir(os.environ['TMPDIR']) if x.startswith('tmp')]
                r.check(not left, lambda: 'files are left: %r' % left)
                r.state(pa, pb, order)


def body_reuse(r, gbdt):
    # The same forest and the same data store, whose contents change between the calls.
    text = [json.dumps({'tree': [{'score': 0.5}, {'score': 0, 'split': {'feature': 'f', 'gain': 2, 'floatSplit': {'threshold': 1.5}},
                                                  'leftChild': {'score': -3}, 'rightChild': {'score': 4}}]}),
            json.dumps({'tree': [{'score': -1.5}, {'score': 0, 'split': {'feature': 's', 'gain': 3, 'catSplit': {'category': ['a', 'x']}},
                                                   'leftChild': {'score': 16}, 'rightChild': {'score': -32}}]})]
    f, g, s = [DATA[k][1] for k in 'fgs']
    rev = list(reversed(range(N)))
    states = [dict(f=('b', f), s=('s', s)), dict(f=('b', [f[i] for i in rev]), s=('s', s)), dict(f=('b', g), s=('s', [s[i] for i in rev])),
              dict(f=('b', f[:3]), s=('s', s[:3])), dict(f=('s', s), s=('b', f)), {}]

    def put(ds, m):
        for k in sorted(m):
            t, v = m[k]
            dict(b=ds.add_bucketized_float_col, s=ds.add_string_col)[t](k, v)

    def change(ds, old, new, how):
        if how == 'clear':
            ds._data_store.clear()
        else:
            for k in sorted(old):
                ds.erase(k)
        put(ds, new)
        return ds

    for seq in itertools.product(range(len(states)), repeat=3 if not r.thorough else 4):
        for how in ('clear', 'erase', 'again'):
            if not r.next(lambda: 'data %s, changed by %s' % (list(seq), how)):
                continue
            forests = [gbdt.Forest(t) for t in text]
            ds, m = make(gbdt, {}), {}
            for step, i in enumerate(seq):
                ds = change(ds, m, states[i], how) if how != 'again' else make(gbdt, states[i])
                m = states[i]
                for k in range(2):
                    model_k, bad = json.loads(text[k]), not m or not fits(json.loads(text[k]), m)
                    for what, call in (('predict', lambda: forests[k].predict(ds)), ('checkpoint', lambda: list(forests[k].predict_at_checkpoints(ds, [2]))[0][1])):
                        raised, got = attempt(call)
                        r.check(raised == bad, lambda: '%s %d after %d changes: %r' % (what, k, step, got))
                        if not raised:
                            check_scores(r, got, scores(model_k, m, len(ds)), '%s, forest %d, change %d' % (what, k, step))
                        r.step()
                    if step % 2:
                        # Another forest in the place of this one.
                        forests[k] = None
                        gc.collect(0)
                        text_k = text[k]
                        forests[k] = gbdt.Forest(text_k)
            r.state(seq, how)


def body_repr(r, gbdt):
    for t in 'brs':
        for n in list(range(0, 14)) + [20, 99, 100, 1000]:
            if not r.next('repr of a column %s[%d]' % (t, n)):
                continue
            values = ['v%03d' % i for i in range(n)] if t == 's' else [1000.0 + i for i in range(n)]
            ds = make(gbdt, {'c': (t, values)})
            text = repr(ds['c'])
            shown = [text.find('v%03d' % i if t == 's' else '%d' % (1000 + i)) for i in range(n)]
            have = [x for x in shown if x >= 0]
            # What is shown are the first values, in order, and what is left out is marked.
            r.check(have == shown[:len(have)] and have == sorted(have), lambda: text)
            r.check(len(have) >= min(n, 10) and len(have) <= 20 and ('...' in text) == (len(have) < n), lambda: text)
            r.step()
            r.state(t, n)
    for cols in itertools.product('brs-', repeat=3):
        for n in (0, 1, 11):
            if not r.next('repr of a data store of %s, %d rows' % (''.join(cols), n)):
                continue
            m = dict(('name%d' % i, (t, ['v%d' % j for j in range(n)] if t == 's' else [float(j) for j in range(n)])) for i, t in enumerate(cols) if t != '-')
            ds = make(gbdt, m)
            text = repr(ds)
            numbers = sorted(int(x) for x in re.findall(r'\d+', text))
            have = sorted([cols.count(t) for t in 'brs'] + [n if m else 0])
            r.check(str(ds) == text and (numbers == have if m else not any(numbers)), lambda: '%s: %s' % (cols, text))
            r.step()
            r.state(cols, n)


LOG_CHILD = """
import os, sys
sys.path.insert(0, %(here)r)
from pymc import stub_modules
gbdt = stub_modules(%(module)r)
forest = gbdt.Forest('{"tree": [{"score": 1}]}')
ds = gbdt.DataLoader.from_dict(raw_float_cols={'a': [1.0]})
for op in sys.argv[2]:
    junk = ['%%047d' %% i for i in range(200)]
    if op in 'ABM':
        d, name = dict(A=('one', 'a-name-that-is-not-short-' * 3), B=('two', 'b'), M=('missing/directory', 'm'))[op]
        try:
            gbdt.init_logging(os.path.join(sys.argv[1], d), name)
        except Exception:
            pass
    elif op == 'I':
        forest.predict(ds)
    elif op == 'E':
        try:
            ds._data_store.get_string_col('nowhere')
        except Exception:
            pass
print('THE END')
"""


def body_logging(r, gbdt):
    import subprocess
    import sys
    here = os.path.dirname(os.path.abspath(__file__))
    child = LOG_CHILD % dict(here=here, module=gbdt._forest.libgbdt.__file__)
    env = dict(os.environ, GLOG_minloglevel='0')
    env.pop('GLOG_log_dir', None)
    for depth in range(0, 5 if r.thorough else 4):
        for ops in itertools.product('ABMIE', repeat=depth):
            if depth > 2 and not r.thorough and not (set(ops) & set('ABM')):
                continue
            if not r.next('logging: ' + ''.join(ops)):
                continue
            d = os.path.join(r.scratch, 'logs')
            subprocess.call(['rm', '-rf', d])
            for x in ('one', 'two', 'elsewhere'):
                os.makedirs(os.path.join(d, x))
            p = subprocess.run([sys.executable, '-c', child, d, ''.join(ops)], env=dict(env, TMPDIR=os.path.join(d, 'elsewhere')), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace')
            r.check(p.returncode == 0 and 'THE END' in p.stdout, lambda: 'the interpreter ends with %s: %s' % (p.returncode, p.stdout[-3000:]))
            inits = [o for o in ops if o in 'ABM']
            names = dict(A='a-name-that-is-not-short-' * 3, B='b')
            for which, x in (('A', 'one'), ('B', 'two')):
                files = os.listdir(os.path.join(d, x))
                r.check(all(f.startswith(names[which] + '.') for f in files) and (which in inits or not files), lambda: 'log files %r' % files)
                if inits[:1] == [which]:
                    after = ops[ops.index(which):]
                    for level in ('INFO',) + (('ERROR',) if 'E' in after else ()):
                        r.check(any(level in f for f in files), lambda: 'no log file %s: %r' % (level, files))
            r.step(len(ops))
            r.state(''.join(ops))


FOREST = json.dumps({'tree': [{'score': 0.5}, {'score': 0, 'split': {'feature': 'f', 'gain': 1, 'floatSplit': {'threshold': 3, 'missingToRightChild': True}},
                                              'leftChild': {'score': 1}, 'rightChild': {'score': 2}}]})


class FakeFrame(object):
    """What from_df and to_df use of pandas.DataFrame."""

    def __init__(self, cols):
        self.cols = dict(cols)

    def select_dtypes(self, include=None, exclude=None):
        def numeric(v):
            return all(isinstance(x, (int, float)) for x in v)
        return FakeFrame((k, v) for k, v in self.cols.items() if numeric(v) == (include is not None))

    def keys(self):
        return list(self.cols)

    def __getitem__(self, k):
        return self.cols[k]


def body_df(r, gbdt):
    import sys
    import types
    pandas = types.ModuleType('pandas')
    pandas.DataFrame = FakeFrame
    sys.modules['pandas'] = pandas
    if 'numpy' not in sys.modules:
        try:
            import numpy  # noqa: F401
        except ImportError:
            numpy = types.ModuleType('numpy')
            numpy.number = float
            sys.modules['numpy'] = numpy
    kinds = [('float', [1.5, NAN, -2.0]), ('int', [3, 1, 2]), ('string', ['p', '', 'q']), ('none', None)]
    types_ = [None, 'string', 'bucketized_float', 'float', 'raw_float']
    for (ka, va), (kb, vb) in itertools.product(kinds, kinds):
        for ta, tb in itertools.product(types_, types_):
            if not r.next('from_df a: %s as %s, b: %s as %s' % (ka, ta, kb, tb)):
                continue
            cols, over, m = {}, {}, {}
            for k, v, kind, t in (('a', va, ka, ta), ('b', vb, kb, tb)):
                if t:
                    over[k] = t
                if v is None:
                    continue
                cols[k] = v
                if kind == 'string':
                    # Words can not be read as numbers: they stay strings.
                    m[k] = ('s', v)
                elif t == 'string':
                    m[k] = ('s', [str(x) for x in v])
                else:
                    m[k] = ('r' if t in ('float', 'raw_float') else 'b', [float(x) for x in v])
            raised, ds = attempt(lambda: gbdt.DataLoader.from_df(FakeFrame(cols), over))
            words = any(k in m and over.get(k, 'string') != 'string' and kind == 'string' for k, kind in (('a', ka), ('b', kb)))
            r.check(not raised or words, lambda: 'from_df raises %r' % ds)
            r.step()
            if not raised:
                compare_store(r, gbdt, ds, m, 'the data store')
                df = ds.to_df()
                got = dict((k, (m[k][0], list(df[k]))) for k in df.keys() if k in m)
                r.check(repr(sorted(got.items())) == repr(sorted(m.items())), lambda: 'to_df gives %r' % got)
            r.state(sorted(m.items()), raised)
