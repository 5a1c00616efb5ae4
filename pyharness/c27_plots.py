"""C27: drawings of trees, partial dependency plots and importance charts show the model they were made from."""
import itertools
import json
import math
import re
import sys
import types

from pyref import attempt, f32, near, same, scores, tree_score

NAN = float('nan')


class Digraph(object):
    """What the visualizer uses of graphviz.Digraph."""

    def __init__(self, *args, **kw):
        self.nodes, self.edges = {}, []

    def node(self, name, label=None, *args, **kw):
        self.nodes[name] = name if label is None else label

    def edge(self, tail, head, *args, **kw):
        self.edges.append((tail, head))


class Recorder(object):
    """Stands in for pyplot and its objects: records every call."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def call(*args, **kw):
            self.calls.append((name, args, kw))
            return (self, self) if name == 'subplots' else self
        return call

    def find(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


FLOAT = re.compile(r'^(.*?) ?(\*?)(<=?)(\*?) ?(-?[0-9.]+)$', re.S)
CAT = re.compile(r'^(.*) in \{(.*)\}$', re.S)


def read_leaf(g, row, root):
    """The label of the leaf a reader of the drawing finds for the row, following the labels."""
    node = root
    while True:
        children = [h for t, h in g.edges if t == node]
        if not children:
            return g.nodes[node]
        text = g.nodes[node].split('\\n')[0]
        m = FLOAT.match(text)
        if m:
            v = row[m.group(1)]
            t = float(m.group(5))
            if math.isnan(v):
                # The star is on the side where missing values go.
                left = m.group(2) == '*'
            else:
                left = v < t or (v == t and m.group(3) == '<=')
        else:
            m = CAT.match(text)
            left = row[m.group(1)] in m.group(2).split(', ')
        node = children[0 if left else 1]


def leaf(score):
    return dict(score=score)


def trees(depth, splits, scores_):
    """All trees up to the depth; scores are taken in turn."""
    yield leaf(next(scores_))
    if depth:
        for s in splits:
            for l in trees(depth - 1, splits, scores_):
                for rr in trees(depth - 1, splits, scores_):
                    yield dict(score=next(scores_), split=s, leftChild=l, rightChild=rr)


def float_split(f, t, right, gain=1.0):
    p = dict(threshold=t)
    if right is not None:
        p['missingToRightChild'] = right
    return dict(feature=f, floatSplit=p, gain=gain)


def cat_split(f, cats, gain=1.0):
    return dict(feature=f, catSplit=dict(category=cats), gain=gain)


FV = [NAN, -1.0, 0.0, 1.0, 2.5, 2.75, 7.0]
SV = ['a', 'b', '', 'c c']
COLS = {'f': ('b', [f for f in FV for _ in SV]), 's': ('s', SV * len(FV)), 'g <h': ('b', [float(i % 3) for i in range(len(FV) * len(SV))])}
COUNT = len(FV) * len(SV)
SPLITS = [float_split('f', 2.5, True), float_split('f', 0, False), float_split('f', -0.5, None), cat_split('s', ['a']), cat_split('s', ['b', 'c c']),
          float_split('g <h', 1, True)]


def make(gbdt, cols):
    ds = gbdt.DataLoader.from_dict()
    for k, (t, v) in cols.items():
        dict(b=ds.add_bucketized_float_col, r=ds.add_raw_float_col, s=ds.add_string_col)[t](k, v)
    return ds


def one_drawing(r, gbdt, ds, forest, as_dict, cols=COLS, count=COUNT):
    obj = gbdt.Forest(json.dumps(forest))
    v = gbdt.ForestVisualizer(json.loads(json.dumps(forest)) if as_dict else obj)
    r.check(v.num_trees() == len(forest['tree']), lambda: '%d trees' % v.num_trees())
    total = [0.0] * count
    for i, t in enumerate(forest['tree']):
        g = v.visualize_tree(i)
        heads = [h for _, h in g.edges]
        roots = [n for n in g.nodes if n not in heads]
        r.check(len(roots) == 1 and len(heads) == len(set(heads)) and all(n in g.nodes for e in g.edges for n in e),
                lambda: 'the drawing of tree %d is no tree: %r %r' % (i, g.nodes, g.edges))

        def check_node(name, node):
            children = [h for a, h in g.edges if a == name]
            r.check(len(children) == (2 if 'leftChild' in node else 0), lambda: 'node %s has children %r' % (g.nodes[name], children))
            number = g.nodes[name].split('\\n')[-1]
            r.check(abs(float(number) - node['score']) <= 5.1e-7, lambda: 'node %s with the score %r' % (g.nodes[name], node['score']))
            if children:
                m = FLOAT.match(g.nodes[name].split('\\n')[0]) or CAT.match(g.nodes[name].split('\\n')[0])
                r.check(m is not None and m.group(1) == node['split']['feature'], lambda: 'node %s for the split %r' % (g.nodes[name], node['split']))
                check_node(children[0], node['leftChild'])
                check_node(children[1], node['rightChild'])
        check_node(roots[0], t)
        for n in range(count):
            row = dict((c, cols[c][1][n]) for c in cols)
            read = float(read_leaf(g, row, roots[0]))
            want = tree_score(t, cols, n)
            r.check(abs(read - want) <= 5.1e-7, lambda: 'the drawing %r %r leads %r to %r, the tree to %r' % (g.nodes, g.edges, row, read, want))
            total[n] += read
        r.step()
    got = obj.predict(ds)
    r.check(all(abs(a - b) <= 1e-3 for a, b in zip(got, total)), lambda: 'the drawings say %r, the predictions %r' % (total, got))


def drawings(r, gbdt):
    depth = 2
    splits = SPLITS if r.thorough else SPLITS[:4] + SPLITS[5:]
    ds = make(gbdt, COLS)
    all_trees = list(trees(depth, splits, itertools.cycle([0.5, -1.25, 0, 3, -0.000001, 1234.5])))
    for k, tree in enumerate(all_trees):
        # Drawn second and third: of the object, of its text.
        other = all_trees[(7 * k + 3) % len(all_trees)]
        for as_dict in (False, True):
            forest = dict(tree=[other, tree, leaf(0.25)])
            if not r.next(lambda: 'drawing of %s%s' % (json.dumps(tree), ' from a dict' if as_dict else '')):
                continue
            one_drawing(r, gbdt, ds, forest, as_dict)
            r.state(json.dumps(tree, sort_keys=True))
    # Deep and broad trees: every pattern of turns, scores that are all the same or zero.
    pattern = ['l', 'r', 'lr', 'llr', 'lrr', 'lllllllllr', 'rrrrrrrrrrrl']
    for turns in pattern:
        for n in (3, 4, 5, 6, 8, 10, 12, 16, 20, 30, 60):
            for scores_ in ([0], [1, 2, 3], [0, 1]):
                for as_dict in (False, True):
                    if n > 12 and not as_dict:
                        continue  # The depth of JSON is limited.
                    if not r.next('drawing of a tree that turns %s to depth %d, scores %s, dict %s' % (turns, n, scores_, as_dict)):
                        continue
                    score = itertools.cycle(scores_)
                    t = leaf(next(score))
                    for i in range(n):
                        other = leaf(next(score)) if i % 2 else dict(score=next(score), split=SPLITS[3], leftChild=leaf(next(score)), rightChild=leaf(next(score)))
                        l, rr = (t, other) if turns[(n - 1 - i) % len(turns)] == 'l' else (other, t)
                        t = dict(score=next(score), split=SPLITS[i % len(SPLITS)], leftChild=l, rightChild=rr)
                    one_drawing(r, gbdt, ds, dict(tree=[t, leaf(0), t]), as_dict)
                    r.state(turns, n, scores_)
    for depth in (3, 4, 5, 6):
        for as_dict in (False, True):
            if r.next('drawing of a full tree of depth %d, dict %s' % (depth, as_dict)):
                score = itertools.count(0)

                def full(d):
                    if not d:
                        return leaf(next(score))
                    return dict(score=next(score), split=SPLITS[next(score) % len(SPLITS)], leftChild=full(d - 1), rightChild=full(d - 1))
                one_drawing(r, gbdt, ds, dict(tree=[full(depth)]), as_dict)
                r.state('full', depth)
    for n in (10, 11, 30, 100, 300):
        for scores_ in ([0], [0, 0.5]):
            if r.next('drawings of %d trees with scores %s' % (n, scores_)):
                score = itertools.cycle(scores_)
                one_drawing(r, gbdt, ds, dict(tree=[leaf(next(score)) if i % 3 == 0 else dict(
                    score=next(score), split=SPLITS[i % len(SPLITS)], leftChild=leaf(next(score)), rightChild=leaf(i)) for i in range(n)]), False)
                r.state('trees', n)


def many_categories(r, gbdt):
    for n in (2, 3, 5, 8, 9, 10, 11, 12, 16, 17, 20, 21, 25, 32, 33, 50, 51, 64, 65, 100, 101, 128, 200, 256, 257, 300, 1000):
        for name in ('%d', 'a rather long name of category number %d', '%d.'):
            for order in (1, -1):
                for k in {1, 2, n // 2, n - 1, n}:
                    if not r.next('drawing of splits on %d of %d categories like %s, order %d' % (k, n, name % 0, order)):
                        continue
                    cats = [name % i for i in range(n)]
                    cols = {'s': ('s', cats + ['other']), 'f': ('b', [float(i % 3) for i in range(n)] + [NAN])}
                    part = cats[::order][:k]
                    t = dict(score=0.5, split=cat_split('s', part), leftChild=dict(score=0, split=float_split('f', 1, False), leftChild=leaf(1), rightChild=leaf(2)),
                             rightChild=dict(score=0, split=cat_split('s', cats[::2]), leftChild=leaf(3), rightChild=leaf(4)))
                    one_drawing(r, gbdt, make(gbdt, cols), dict(tree=[t]), order == 1, cols, n + 1)
                    r.state('categories', n, k, name, order)


def many_points(r, gbdt, plt):
    """Many points, many rows, many features."""
    for n in (5, 10, 11, 21, 50, 101) + ((500,) if r.thorough else ()):
        for rows in (1, 3, 200) + ((3000,) if n == 5 else ()):
            for feature in ('f', 's'):
                for order in (1, -1):
                    if not r.next('partial dependency of %s at %d points, %d rows, order %d' % (feature, n, rows, order)):
                        continue
                    data = {'f': ('b', [float(i * 7 % 13) for i in range(rows)]), 's': ('s', ['c%d' % (i * 5 % 17) for i in range(rows)]), 'g <h': ('b', [float(i % 3) for i in range(rows)])}
                    x = [float(i * 3 % (2 * n + 1)) for i in range(n)] if feature == 'f' else ['c%d' % (i * 3 % (2 * n + 1)) for i in range(n)]
                    forest = dict(tree=[dict(score=0, split=float_split('f', i + 0.5, i % 2 == 0), leftChild=dict(
                        score=0, split=cat_split('s', ['c%d' % i, 'c%d' % (i * 3)]), leftChild=leaf(i), rightChild=leaf(0.5)), rightChild=dict(
                            score=0, split=float_split('g <h', 1, True), leftChild=leaf(-1), rightChild=leaf(i * 0.25))) for i in range(12)])
                    one_partial(r, gbdt, plt, forest, data, feature, x[::order], None, False)
    for n in (2, 5, 10, 11, 20, 21, 30, 50, 100):
        for step in (1, -1):
            if r.next('importance chart of %d features, step %d' % (n, step)):
                del plt.calls[:]
                gains = dict(('feature %d' % i, 1.0 + (i * 7 % n)) for i in range(n))
                names = sorted(gains)[::step]
                gbdt.Forest(json.dumps(dict(tree=[dict(score=0, split=float_split(k, 1, True, gains[k]), leftChild=leaf(1), rightChild=leaf(2)) for k in names]))).feature_importance_bar_chart()
                r.step()
                one_chart(r, plt, gains)


def mean_std(d):
    m = sum(d) / len(d)
    return m, math.sqrt(sum((x - m) ** 2 for x in d) / len(d))


DATA_SETS = [
    {'f': ('b', [1.0, NAN, 2.5, 7.0]), 's': ('s', ['a', 'b', 'c c', 'a']), 'g <h': ('b', [0.0, 1.0, 2.0, NAN]), 'raw': ('r', [1.0, 2.0, 3.0, 4.0])},
    {'f': ('b', [2.5]), 's': ('s', ['b']), 'g <h': ('b', [1.0]), 'raw': ('r', [1.0])},
]
FLOAT_POINTS = [1.0, 2.5, NAN, 7.0, -0.5]
CAT_POINTS = ['a', 'b', 'new', 'c c']


def forests():
    one = [s for s in SPLITS]
    for a, b in itertools.product(one, repeat=2):
        yield dict(tree=[leaf(0.5), dict(score=0, split=a, leftChild=dict(score=0, split=b, leftChild=leaf(2), rightChild=leaf(-1.5)), rightChild=leaf(4))])
    for a, b in itertools.combinations(one, 2):
        yield dict(tree=[dict(score=0, split=a, leftChild=leaf(1), rightChild=leaf(-2)), dict(score=0, split=b, leftChild=leaf(0.25), rightChild=leaf(8))])
    yield dict(tree=[leaf(1.5)])


def copy_cols(ds):
    return dict((c, list(ds[c])) for c in ds.cols())


def same_cols(a, b):
    return set(a) == set(b) and all(len(a[c]) == len(b[c]) and all(same(x, y) for x, y in zip(a[c], b[c])) for c in a)


def close(a, b):
    return len(a) == len(b) and all((math.isnan(x) and math.isnan(y)) or near(x, y) for x, y in zip(a, b))


def numbers(a):
    return [float(x) for x in a]


def with_value(cols, feature, v):
    out = dict(cols)
    out[feature] = (cols[feature][0], [f32(v) if cols[feature][0] == 'b' else v] * len(cols[feature][1]))
    return out


def partial(r, gbdt, plt):
    lists = {}
    for name, points in (('f', FLOAT_POINTS), ('g <h', FLOAT_POINTS[:3]), ('s', CAT_POINTS)):
        top = 3 if r.thorough else 2
        lists[name] = [list(x) for n in range(1, top + 1) for x in itertools.permutations(points, n)] + [[points[0], points[0]]]
    for forest in forests():
        for data in DATA_SETS:
            for feature in ('f', 'g <h', 's', 'raw', 'nowhere'):
                for x in lists.get(feature, [[1.0]]):
                    if sum(isinstance(v, float) and math.isnan(v) for v in x) and len(x) > 1:
                        continue  # Missing values have no place on an axis.
                    for x0 in (None, lists[feature][0][0] if feature in lists else 1.0, 2.75 if feature != 's' else 'c c', 0 if feature != 's' else '', -0.5 if feature != 's' else 'b'):
                        for log_scale in (False, True):
                            if log_scale and (feature == 's' or any(not v > 0 for v in x)):
                                continue
                            if not r.next(lambda: 'partial dependency of %s on %s x=%r x0=%r log=%s data %r' % (json.dumps(forest), feature, x, x0, log_scale, data)):
                                continue
                            one_partial(r, gbdt, plt, forest, data, feature, x, x0, log_scale)
                            if r.done():
                                return


def one_partial(r, gbdt, plt, forest, data, feature, x, x0, log_scale):
    ds = make(gbdt, data)
    before = copy_cols(ds)
    del plt.calls[:]
    given = list(x)
    raised, e = attempt(lambda: gbdt.plot_partial_dependency(gbdt.Forest(json.dumps(forest)), ds, feature, given, x0=x0, log_scale=log_scale))
    r.step()
    r.check(same_cols(before, copy_cols(ds)), lambda: 'the data is changed')
    r.check(repr(given) == repr(x), lambda: 'the list of points is changed: %r' % given)
    bad = feature in ('raw', 'nowhere')
    r.check(raised == bad, lambda: '%r' % (e,))
    if bad:
        r.check(not plt.find('show'), 'a plot is shown')
        return
    n = len(data['f'][1])
    categorical = data[feature][0] == 's'
    base = x0 if x0 is not None else (x[0] if categorical else NAN)
    base_scores = scores(forest, with_value(data, feature, base), n)
    want = {}
    for v in x:
        want[repr(v)] = mean_std([a - b for a, b in zip(scores(forest, with_value(data, feature, v), n), base_scores)])
    r.check(len(plt.find('show')) == 1, 'the plot is shown %d times' % len(plt.find('show')))
    if not categorical:
        points = sorted(x)
        axis = [math.log(v) for v in points] if log_scale else points
        mean = [want[repr(v)][0] for v in points]
        low = [want[repr(v)][0] - 1.96 * want[repr(v)][1] for v in points]
        high = [want[repr(v)][0] + 1.96 * want[repr(v)][1] for v in points]
        lines = [(numbers(a[0]), numbers(a[1])) for a, _ in plt.find('plot')]
        r.check(any(close(lx, axis) and close(ly, mean) for lx, ly in lines), lambda: 'lines %r do not have %r %r' % (lines, axis, mean))
        r.check(all(close(ly, mean) or close(ly, [0.0] * len(x)) for lx, ly in lines), lambda: 'lines %r' % lines)
        bands = [tuple(numbers(v) for v in a[:3]) for a, _ in plt.find('fill_between')]
        r.check(len(bands) == 1 and close(bands[0][0], axis) and close(bands[0][1], low) and close(bands[0][2], high),
                lambda: 'the band %r is not %r %r %r' % (bands, axis, low, high))
        r.state('float', len(x), log_scale, sorted(want.items()))
    else:
        bars = plt.find('bar')
        r.check(len(bars) == 1, 'bars are drawn %d times' % len(bars))
        at, heights = numbers(bars[0][0][0]), numbers(bars[0][0][1])
        errors = numbers(bars[0][1]['yerr'])
        labels = [list(a[0]) for a, _ in plt.find('set_xticklabels')]
        r.check(len(labels) == 1 and sorted(labels[0]) == sorted(x), lambda: 'labels %r' % labels)
        labels = labels[0]
        ticks = [numbers(a[0]) for a, _ in plt.find('set_xticks')]
        r.check(len(ticks) == 1 and len(ticks[0]) == len(x) and all(0 <= t - b < 1 for t, b in zip(ticks[0], at)) and all(b > a for a, b in zip(at, at[1:])),
                lambda: 'bars at %r, labels at %r' % (at, ticks))
        r.check(close(heights, [want[repr(v)][0] for v in labels]) and close(errors, [want[repr(v)][1] for v in labels]),
                lambda: 'bars of %r are %r +- %r instead of %r' % (labels, heights, errors, want))
        r.check(all(b >= a - 1e-9 for a, b in zip(heights, heights[1:])), lambda: 'bars are not in order: %r' % heights)
        r.state('cat', labels, sorted(want.items()))


def charts(r, gbdt, plt):
    for forest in forests():
        for ga, gb in itertools.product((0.5, 1.0, 3.0), repeat=2):
            if not r.next(lambda: 'importance chart of %s with gains %g %g' % (json.dumps(forest), ga, gb)):
                continue
            forest = json.loads(json.dumps(forest))
            gains = {}

            def fill(node, g):
                if 'split' in node:
                    node['split']['gain'] = g[0]
                    gains[node['split']['feature']] = gains.get(node['split']['feature'], 0) + g[0]
                    fill(node['leftChild'], g[::-1])
                    fill(node['rightChild'], g[::-1])
            for i, t in enumerate(forest['tree']):
                fill(t, [ga, gb] if i % 2 else [gb, ga])
            del plt.calls[:]
            gbdt.Forest(json.dumps(forest)).feature_importance_bar_chart()
            r.step()
            one_chart(r, plt, gains)


def one_chart(r, plt, gains):
    bars = plt.find('barh')
    labels = [list(a[0]) for a, _ in plt.find('set_yticklabels')]
    ticks = [numbers(a[0]) for a, _ in plt.find('set_yticks')]
    r.check(len(bars) == 1 and len(labels) == 1 and len(ticks) == 1, 'bars are drawn %d times' % len(bars))
    at, widths = numbers(bars[0][0][0]), numbers(bars[0][0][1])
    top = max(gains.values()) if gains else 1.0
    r.check(sorted(labels[0]) == sorted(gains) and ticks[0] == at, lambda: 'bars of %r at %r, %r' % (labels, ticks, at))
    r.check(close(widths, [gains[k] / top for k in labels[0]]), lambda: 'bars of %r are %r instead of %r' % (labels, widths, gains))
    # The most important feature is on top.
    order = [w for _, w in sorted(zip(at, widths))]
    r.check(len(set(at)) == len(at) and all(b >= a - 1e-9 for a, b in zip(order, order[1:])), lambda: 'bars at %r: %r' % (at, widths))
    r.state('chart', labels, widths)


def body(r, gbdt):
    graphviz = types.ModuleType('graphviz')
    graphviz.Digraph = Digraph
    sys.modules['graphviz'] = graphviz
    plt = Recorder()
    matplotlib = types.ModuleType('matplotlib')
    pyplot = types.ModuleType('matplotlib.pyplot')
    pyplot.__getattr__ = lambda name: getattr(plt, name)
    matplotlib.pyplot = pyplot
    sys.modules['matplotlib'] = matplotlib
    sys.modules['matplotlib.pyplot'] = pyplot
    # Predictions use the number of threads of the last training.
    gbdt.train(make(gbdt, COLS), dict(loss_func='mse', num_trees=1, num_leaves=2), y=[1.0] * COUNT, features=['f'], num_threads=1)
    drawings(r, gbdt)
    if r.done():
        return
    many_categories(r, gbdt)
    many_points(r, gbdt, plt)
    if r.done():
        return
    partial(r, gbdt, plt)
    if r.done():
        return
    charts(r, gbdt, plt)
    # A forest without trees.
    if r.next('drawing of a forest without trees'):
        r.check(gbdt.ForestVisualizer(gbdt.Forest('{"tree": []}')).num_trees() == 0, 'trees')
