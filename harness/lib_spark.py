"""Stand-in for a Spark session, used alike in symbolic runs and in replays.

It keeps the contract of the calls and leaves open what Spark leaves open: where a file is cut into partitions, in which order and partitions the
rows of a join, a shuffle, a de-duplication or a repartitioning arrive, in which order values are combined."""
import itertools


class Row(tuple):
    """row with named columns"""

    def __new__(cls, vals, names):
        r = tuple.__new__(cls, vals)
        r.__dict__['__fields__'] = list(names)
        return r

    def __getattr__(self, name):
        fs = self.__dict__.get('__fields__', ())
        if name in fs:
            return tuple.__getitem__(self, fs.index(name))
        raise AttributeError(name)

    def __getitem__(self, i):
        if isinstance(i, str):
            return tuple.__getitem__(self, self.__dict__['__fields__'].index(i))
        return tuple.__getitem__(self, i)

    def asDict(self):
        return dict(zip(self.__dict__['__fields__'], self))


class Session:
    """files: path -> list of lines; width: largest number of partitions"""

    def __init__(self, env, files, width=2, shuffle=True):
        self.env, self.files, self.width, self.free = env, {str(k): v for k, v in files.items()}, width, shuffle
        self.read = self
        self.sparkContext = self
        self.stopped = 0

    # reader
    def text(self, path, **k):
        lines = []
        for p in (path if isinstance(path, (list, tuple)) else [path]):
            if str(p) not in self.files:
                raise FileNotFoundError(f'Path does not exist: {p}')
            lines += self.files[str(p)]
        return Frame(self.cut([Row((t,), ['value']) for t in lines]), ['value'])

    # context
    def parallelize(self, items, numSlices=None):
        return self.cut(list(items))

    def textFile(self, path, *a, **k):
        return self.text(path).rdd.map(lambda r: r.value)

    def union(self, rdds):
        return Rdd(self, [p for r in rdds for p in r.parts])

    def broadcast(self, v):
        class B:
            value = v
        return B

    def emptyRDD(self):
        return Rdd(self, [])

    def createDataFrame(self, data, schema=None, **k):
        return (data if isinstance(data, Rdd) else self.cut(list(data))).toDF(schema)

    def stop(self):
        self.stopped += 1

    # nondeterminism
    def cut(self, items):
        """consecutive partitions"""
        if self.width < 2 or not items or not self.free:
            return Rdd(self, [items])
        at = sorted(self.env.pick('cut', 0, len(items)) for _ in range(self.width - 1))
        at = [0] + at + [len(items)]
        return Rdd(self, [items[a:b] for a, b in zip(at, at[1:])])

    def any_order(self, items):
        items = list(items)
        if not self.free:
            return items
        res = []
        while items:
            res.append(items.pop(self.env.pick('row', 0, len(items) - 1)))
        return res

    def scatter(self, items, n=None):
        """any order, any partitions"""
        items = self.any_order(items)
        n = self.width if n is None else n
        if n < 2 or not items:
            return Rdd(self, [items] + [[] for _ in range(n - 1)])
        parts = [[] for _ in range(n)]
        for x in items:
            parts[self.env.pick('part', 0, n - 1)].append(x)
        return Rdd(self, parts)


class Rdd:
    def __init__(self, s, parts):
        self.s, self.parts = s, parts
        self.context = s

    def _same(self, f):
        return Rdd(self.s, [f(p) for p in self.parts])

    @property
    def items(self):
        return [x for p in self.parts for x in p]

    def getNumPartitions(self):
        return len(self.parts)

    def map(self, f, *a):
        return self._same(lambda p: [f(x) for x in p])

    def filter(self, f):
        return self._same(lambda p: [x for x in p if f(x)])

    def flatMap(self, f, *a):
        return self._same(lambda p: [y for x in p for y in f(x)])

    def mapValues(self, f):
        return self.map(lambda kv: (kv[0], f(kv[1])))

    def flatMapValues(self, f):
        return self.flatMap(lambda kv: [(kv[0], v) for v in f(kv[1])])

    def keyBy(self, f):
        return self.map(lambda x: (f(x), x))

    def keys(self):
        return self.map(lambda kv: kv[0])

    def values(self):
        return self.map(lambda kv: kv[1])

    def mapPartitions(self, f, *a):
        return self._same(lambda p: list(f(iter(p))))

    def mapPartitionsWithIndex(self, f, *a):
        return Rdd(self.s, [list(f(i, iter(p))) for i, p in enumerate(self.parts)])

    def foreachPartition(self, f):
        for p in self.parts:
            f(iter(p))

    def foreach(self, f):
        for x in self.items:
            f(x)

    def glom(self):
        return Rdd(self.s, [[list(p)] for p in self.parts])

    def zipWithIndex(self):
        k = itertools.count()
        return self._same(lambda p: [(x, next(k)) for x in p])

    def zip(self, other):
        if [len(p) for p in self.parts] != [len(p) for p in other.parts]:
            raise ValueError('Can only zip RDDs with same number of elements in each partition')
        return Rdd(self.s, [list(zip(a, b)) for a, b in zip(self.parts, other.parts)])

    def union(self, other):
        return Rdd(self.s, self.parts + other.parts)

    def cache(self, *a): return self
    persist = unpersist = checkpoint = localCheckpoint = cache
    def setName(self, n): return self

    def repartition(self, n):
        return self.s.scatter(self.items, n)

    def coalesce(self, n, shuffle=False):
        if shuffle:
            return self.repartition(n)
        if n >= len(self.parts):
            return self
        parts = self.parts[:n - 1] + [[x for p in self.parts[n - 1:] for x in p]]
        return Rdd(self.s, parts)

    def sortBy(self, f, ascending=True, numPartitions=None):
        return self.s.cut(sorted(self.items, key=f, reverse=not ascending))

    def sortByKey(self, ascending=True, *a, **k):
        return self.sortBy(lambda kv: kv[0], ascending)

    def _groups(self):
        gs = []
        for k, v in self.items:
            for g in gs:
                if self.s.env.eq(g[0], k):
                    g[1].append(v)
                    break
            else:
                gs.append((k, [v]))
        return gs

    def groupByKey(self, *a):
        return self.s.scatter([(k, self.s.any_order(vs)) for k, vs in self._groups()])

    def reduceByKey(self, f, *a):
        res = []
        for k, vs in self._groups():
            res.append((k, self._combine(f, vs)))
        return self.s.scatter(res)

    def _combine(self, f, vs):
        """values are combined within partitions first, in an order Spark does not fix: all of them left to right, or the last two first"""
        if len(vs) > 1 and self.s.free and self.s.env.flag('turn'):
            vs = vs[::-1]
        if len(vs) > 2 and self.s.free and self.s.env.flag('tail'):
            vs = vs[:-2] + [f(vs[-2], vs[-1])]
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return r

    def foldByKey(self, zero, f, *a):
        return self.map(lambda kv: (kv[0], f(zero, kv[1]))).reduceByKey(f)

    def aggregateByKey(self, zero, seq, comb, *a):
        import copy
        gs = self._groups()
        res = []
        for k, vs in gs:
            cut = self.s.env.pick('agg', 0, len(vs)) if self.s.free else 0
            halves = []
            for h in (vs[:cut], vs[cut:]):
                if h:
                    r = copy.deepcopy(zero)
                    for v in h:
                        r = seq(r, v)
                    halves.append(r)
            res.append((k, halves[0] if len(halves) == 1 else comb(*halves)))
        return self.s.scatter(res)

    def reduce(self, f):
        vs = self.items
        if not vs:
            raise ValueError('Can not reduce() empty RDD')
        return self._combine(f, vs)

    def fold(self, zero, f):
        return self._combine(f, [zero] + self.items)

    def sum(self):
        return sum(self.items)

    def distinct(self, *a):
        res = []
        for x in self.items:
            if not any(self.s.env.eq(x, y) for y in res):
                res.append(x)
        return self.s.scatter(res)

    def join(self, other, *a):
        return self.s.scatter([(k, (v, w)) for k, v in self.items for q, w in other.items if self.s.env.eq(k, q)])

    def collect(self): return self.items
    def toLocalIterator(self, *a): return iter(self.items)
    def count(self): return len(self.items)
    def isEmpty(self): return not self.items
    def take(self, n): return self.items[:n]

    def first(self):
        if not self.items:
            raise ValueError('RDD is empty')
        return self.items[0]

    def collectAsMap(self):
        return dict(self.items)

    def countByValue(self):
        d = {}
        for x in self.items:
            d[x] = d.get(x, 0) + 1
        return d

    def countByKey(self):
        return self.keys().countByValue()

    def toDF(self, schema=None, *a):
        names = schema if isinstance(schema, (list, tuple)) else getattr(schema, 'names', None)
        typed = schema is not None and not isinstance(schema, (list, tuple))
        if not typed:
            if not self.items:
                raise ValueError('RDD is empty')
            for x in self.items:
                check_types(x)
            if names is None:
                names = self.items[0].__fields__
        for x in self.items:
            if len(x) != len(names):
                raise ValueError('Length of object does not match with length of fields')
        return Frame(self._same(lambda p: [Row(tuple(x), names) for x in p]), list(names))


def check_types(x):
    """types Spark can infer"""
    if isinstance(x, (tuple, list)):
        for y in x:
            check_types(y)
        return
    if hasattr(x, 'dtype'):
        raise TypeError(f'not supported type: {type(x)}')


class Field:
    def __init__(self, name):
        self.name = name
        self.dataType = None


class Frame:
    def __init__(self, rdd, names):
        self.rdd, self.columns = rdd, list(names)
        self.s = rdd.s
        self.sparkSession = rdd.s

    @property
    def schema(self):
        from pyspark.sql import types as T

        class Schema:
            fields = [T.StructField(n, T.StringType(), True) for n in self.columns]
            names = list(self.columns)
        return Schema

    def _rows(self, rows, names=None, scatter=False):
        names = names or self.columns
        rows = [Row(tuple(r), names) for r in rows]
        return Frame(self.s.scatter(rows) if scatter else Rdd(self.s, [rows]), names)

    def withColumnRenamed(self, old, new):
        names = [new if n == old else n for n in self.columns]
        return Frame(self.rdd.map(lambda r: Row(tuple(r), names)), names)

    def count(self): return self.rdd.count()
    def collect(self): return self.rdd.collect()
    def take(self, n): return self.rdd.take(n)
    def isEmpty(self): return self.rdd.isEmpty()
    def toLocalIterator(self, *a): return iter(self.rdd.items)
    def cache(self, *a): return self
    persist = unpersist = cache

    def first(self):
        return self.rdd.items[0] if self.rdd.items else None

    def select(self, *cols):
        cols = [c for x in cols for c in (x if isinstance(x, (list, tuple)) else [x])]
        return Frame(self.rdd.map(lambda r: Row(tuple(getattr(r, c) for c in cols), cols)), cols)

    def union(self, other):
        return Frame(Rdd(self.s, self.rdd.parts + [[Row(tuple(r), self.columns) for r in p] for p in other.rdd.parts]), self.columns)

    unionAll = union

    def drop_duplicates(self, subset=None):
        res = []
        for r in self.rdd.items:
            if not any(self.s.env.eq(tuple(r), tuple(q)) for q in res):
                res.append(r)
        return Frame(self.s.scatter(res), self.columns)

    dropDuplicates = distinct = drop_duplicates

    def join(self, other, on=None, how='inner'):
        on = [on] if isinstance(on, str) else list(on)
        assert how in ('inner', None), how
        names = on + [c for c in self.columns if c not in on] + [c for c in other.columns if c not in on]
        rows = []
        for a in self.rdd.items:
            for b in other.rdd.items:
                if all(self.s.env.eq(getattr(a, c), getattr(b, c)) for c in on):
                    rows.append(Row(tuple(getattr(a, c) for c in on) + tuple(getattr(a, c) for c in self.columns if c not in on)
                                    + tuple(getattr(b, c) for c in other.columns if c not in on), names))
        return Frame(self.s.scatter(rows), names)

    def repartition(self, n, *a):
        return Frame(self.rdd.repartition(n), self.columns)

    def coalesce(self, n):
        return Frame(self.rdd.coalesce(n), self.columns)

    def orderBy(self, *cols, **k):
        return Frame(self.s.cut(sorted(self.rdd.items, key=lambda r: tuple(getattr(r, c) for c in cols))), self.columns)

    sort = orderBy
