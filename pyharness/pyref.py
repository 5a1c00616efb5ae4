"""Reference for the Python harnesses: data as lists, forests as parsed json."""
import json
import math
import struct


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def near(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tree_score(node, cols, i):
    while 'leftChild' in node:
        s = node['split']
        v = cols[s['feature']][1][i]
        if 'floatSplit' in s:
            p = s['floatSplit']
            left = not p.get('missingToRightChild', False) if math.isnan(v) else v < p['threshold']
        else:
            left = v in s['catSplit'].get('category', [])
        node = node['leftChild'] if left else node['rightChild']
    return node['score']


def scores(forest, cols, n, trees=None):
    return [sum(tree_score(t, cols, i) for t in forest.get('tree', [])[:trees]) for i in range(n)]


def splits(node):
    if 'leftChild' in node:
        yield node['split']
        for c in (node['leftChild'], node['rightChild']):
            for s in splits(c):
                yield s


def all_splits(forest):
    return [s for t in forest.get('tree', []) for s in splits(t)]


def fits(forest, cols):
    """Whether the forest can be applied to the columns: {name: (type, values)}."""
    for s in all_splits(forest):
        want = 'b' if 'floatSplit' in s else 's'
        if s['feature'] not in cols or cols[s['feature']][0] != want:
            return False
    return True


def model(forest):
    """The model of a Forest object, without what depends on the time."""
    f = json.loads(str(forest))
    f.pop('metaInfo', None)
    return f


class Tie(Exception):
    """Two features that split equally well: what follows may differ."""


def goes_left(split, cols, i):
    leaf = dict(split=split, leftChild=dict(score=1), rightChild=dict(score=0))
    return tree_score(leaf, cols, i) == 1


def same_node(a, b, cols, rows):
    if ('leftChild' in a) != ('leftChild' in b):
        return False
    if not near(a['score'], b['score']):
        return False
    if 'leftChild' not in a:
        return True
    s, t = a['split'], b['split']
    if not near(s['gain'], t['gain']):
        return False
    left = [goes_left(s, cols, i) for i in rows]
    other = [goes_left(t, cols, i) for i in rows]
    x, y = b['leftChild'], b['rightChild']
    if left != other:
        if [not v for v in other] != left:
            raise Tie()
        x, y = y, x
    return (same_node(a['leftChild'], x, cols, [i for i, v in zip(rows, left) if v]) and
            same_node(a['rightChild'], y, cols, [i for i, v in zip(rows, left) if not v]))


def same_model(f, g, cols, n):
    """Whether the forests f and g are the same up to the choice between equally good splits of the data."""
    a, b = f.get('tree', []), g.get('tree', [])
    if len(a) != len(b) or dict(f, tree=0) != dict(g, tree=0):
        return False
    try:
        return all(same_node(x, y, cols, list(range(n))) for x, y in zip(a, b))
    except Tie:
        return True


def attempt(f):
    """(raised?, result or exception)"""
    try:
        return False, f()
    except Exception as e:  # noqa: B902
        return True, e


TYPES = {'b': 'bucketized_float', 'r': 'raw_float', 's': 'string'}


def compare_store(r, gbdt, ds, m, what, extra_names=('a', 'b', 'zz')):
    """The data store ds is the map m: {name: (type, values)}."""
    cols = ds.cols()
    r.check(len(cols) == len(set(cols)) and set(cols) == set(m), lambda: '%s has columns %r instead of %r' % (what, cols, sorted(m)))
    r.check(set(ds.keys()) == set(m), lambda: '%s: keys()' % what)
    for t, names in (('b', ds.bucketized_float_cols()), ('r', ds.raw_float_cols()), ('s', ds.string_cols())):
        want = sorted(k for k in m if m[k][0] == t)
        r.check(sorted(names) == want, lambda: '%s: columns of type %s are %r instead of %r' % (what, t, names, want))
    for k in extra_names:
        r.check((k in ds) == (k in m), lambda: '%s: %r in data store' % (what, k))
    n = len(next(iter(m.values()))[1]) if m else 0
    r.check(len(ds) == n, lambda: '%s has %d rows instead of %d' % (what, len(ds), n))
    repr(ds)
    for k in m:
        compare_column(r, gbdt, ds[k], k, m[k], what)
        r.check(ds._data_store.get_column_type(k) == TYPES[m[k][0]], lambda: '%s: type of %s' % (what, k))


def compare_column(r, gbdt, col, name, want, what):
    t, values = want
    cls = dict(b=gbdt.BucketizedFloatColumn, r=gbdt.RawFloatColumn, s=gbdt.StringColumn)[t]
    r.check(type(col) is cls, lambda: '%s: column %s is a %r' % (what, name, type(col)))
    r.check(len(col) == len(values), lambda: '%s: column %s has %d values instead of %d' % (what, name, len(col), len(values)))
    got = list(col)
    r.check(same_list(got, values), lambda: '%s: column %s is %r instead of %r' % (what, name, got, values))
    r.check(str(col) == name, lambda: '%s: name %r of column %s' % (what, str(col), name))
    repr(col)
    for i in (len(values), len(values) + 7, 2 ** 31 - 1):
        raised, e = attempt(lambda: col[i])
        r.check(raised and isinstance(e, IndexError), lambda: '%s: column %s has a value %d: %r' % (what, name, i, e))
    raised, e = attempt(lambda: col[-1])
    r.check(raised or (values and same(e, values[-1])), lambda: '%s: column %s has a value -1: %r' % (what, name, e))
    if t == 'b':
        buckets = col.buckets()
        have = [v for v in values if not math.isnan(v)]
        r.check(all(any(lo <= v <= hi for lo, hi in buckets) for v in have), lambda: '%s: column %s has buckets %r' % (what, name, buckets))
