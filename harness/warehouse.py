"""A small in-memory data platform: just enough of Spark's tables, columns, user functions and SQL expressions and of
petastorm's readers for the project's own workflow code to run over tables held in memory.

Unsupported constructs raise Unsupported: a scenario that meets one is not judged."""
import math
import random
import re
import sys
import zlib

import numpy as np
import stubs  # noqa: F401  (installs empty stand-ins for the missing libraries)
import torch


class Unsupported(Exception):
    pass


# ---- types
class Type:
    def __init__(self, *args):
        self.args = args

    def cast(self, v):
        return v


def cast_to(kind):
    class T(Type):
        def cast(self, v):
            return None if v is None else kind(v)
    return T


FloatType = cast_to(lambda v: float(np.float32(v)))
DoubleType = cast_to(float)
LongType = cast_to(int)
IntegerType = cast_to(int)
ShortType = cast_to(int)
BooleanType = cast_to(bool)
StringType = cast_to(str)
for _n, _t in (("FloatType", FloatType), ("DoubleType", DoubleType), ("LongType", LongType), ("IntegerType", IntegerType), ("BooleanType", BooleanType), ("StringType", StringType)):
    _t.__name__ = _n


class ArrayType(Type):
    def cast(self, v):
        return None if v is None else [self.args[0].cast(x) for x in v]


class MapType(Type):
    def cast(self, v):
        return None if v is None else {self.args[0].cast(k): self.args[1].cast(x) for k, x in v.items()}


class StructField(Type):
    @property
    def name(self):
        return self.args[0]


class StructType(Type):
    def cast(self, v):
        if v is None:
            return None
        names = [f.name for f in self.args[0]]
        return dict(v) if isinstance(v, dict) else {n: f.args[1].cast(x) for n, f, x in zip(names, self.args[0], v)}


NAMED = {"FLOAT": FloatType(), "DOUBLE": DoubleType(), "INT": IntegerType(), "LONG": LongType(), "BIGINT": LongType(), "BOOLEAN": BooleanType(), "STRING": StringType()}


def as_type(t):
    if isinstance(t, str):
        if t.upper() not in NAMED:
            raise Unsupported(f"type {t}")
        return NAMED[t.upper()]
    return t() if isinstance(t, type) else t


# ---- columns
class Column:
    def __init__(self, f, name="?", explode=False, chained=None):
        self.f, self.names, self.explode = f, [name], explode
        self.raw = chained or f  # a user function's result as the next user function sees it

    def alias(self, *names):
        c = Column(self.f, explode=self.explode)
        c.names = list(names)
        return c

    def cast(self, t):
        t = as_type(t)
        return Column(lambda r: t.cast(self.f(r)), self.names[0])

    astype = cast

    def getItem(self, k):
        def f(r):
            v = self.f(r)
            return None if v is None else (v.get(k) if isinstance(v, dict) else (v[k] if 0 <= k < len(v) else None))
        return Column(f, f"{self.names[0]}[{k}]")

    getField = __getitem__ = getItem

    def isNull(self):
        return Column(lambda r: self.f(r) is None)

    def isNotNull(self):
        return Column(lambda r: self.f(r) is not None)

    def isin(self, *vs):
        vs = vs[0] if len(vs) == 1 and isinstance(vs[0], (list, set, tuple)) else vs
        return Column(lambda r: self.f(r) in vs)

    def between(self, a, b):
        return (self >= a) & (self <= b)

    def __invert__(self):
        return Column(lambda r: None if self.f(r) is None else not self.f(r))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError("Cannot convert column into bool")


def lit(v):
    return v if isinstance(v, Column) else Column(lambda r: v, str(v))


def _op(name, f):
    def op(self, other):
        a, b = self, lit(other)

        def g(r):
            x, y = a.f(r), b.f(r)
            return None if x is None or y is None else f(x, y)
        return Column(g)
    setattr(Column, f"__{name}__", op)
    if name in ("and", "or", "add", "sub", "mul", "truediv", "mod"):
        setattr(Column, f"__r{name}__", lambda self, other: op(lit(other), self))


def _and(x, y):
    return bool(x and y)


for _n, _f in {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "and": _and,
               "or": lambda x, y: bool(x or y), "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "truediv": lambda x, y: x / y if y else None,
               "mod": lambda x, y: x % y}.items():
    _op(_n, _f)


def col(name):
    if isinstance(name, Column):
        return name

    def f(r):
        v = r
        if name in r:
            return r[name]
        for p in name.split("."):
            if p not in v:
                raise KeyError(f"no column {name} in {list(r)}")
            v = v[p]
        return v
    return Column(f, name.split(".")[-1])


def udf(f=None, returnType=StringType()):
    if not callable(f):
        return lambda g: udf(g, f if f is not None else returnType)

    rt = as_type(returnType)

    def call(*cols):
        cs = [col(c) for c in cols]

        def raw(r):
            return f(*[c.raw(r) for c in cs])

        def value(r):
            v = raw(r)
            return rt.cast(v) if isinstance(rt, StructType) else v
        return Column(value, getattr(f, "__name__", "udf"), chained=raw)
    return call


def fn(f):
    def call(*cols):
        cs = [col(c) for c in cols]

        def g(r):
            xs = [c.f(r) for c in cs]
            return None if any(x is None for x in xs) else f(*xs)
        return Column(g)
    return call


crc32 = fn(lambda s: zlib.crc32(s.encode() if isinstance(s, str) else bytes(s)))
map_keys = fn(lambda m: list(m))
map_values = fn(lambda m: list(m.values()))
size = fn(len)
reverse = fn(lambda v: v[::-1])


def explode(c):
    c = col(c)
    return Column(c.f, "col", explode=True)


def expr(s):
    e = parse(s)
    return Column(lambda r: evaluate(e, r), s)


def coalesce(*cols):
    cs = [col(c) for c in cols]
    return Column(lambda r: next((x for x in (c.f(r) for c in cs) if x is not None), None))


class _Collect:
    def __init__(self, c):
        self.c, self.name = col(c), f"collect_list({c})"

    def alias(self, n):
        self.name = n
        return self


def collect_list(c):
    return _Collect(c)


# ---- tables
class Row(dict):
    def __getattr__(self, n):
        return self[n]

    def asDict(self):
        return dict(self)


class _Values(list):
    """one-column results of toPandas()"""


class DataFrame:
    def __init__(self, rows, columns):
        self.rows, self.columns = rows, list(columns)

    def withColumn(self, name, c):
        c = col(c)
        return DataFrame([{**r, name: c.f(r)} for r in self.rows], self.columns + ([] if name in self.columns else [name]))

    def withColumnRenamed(self, a, b):
        return DataFrame([{(b if k == a else k): v for k, v in r.items()} for r in self.rows], [b if k == a else k for k in self.columns])

    def drop(self, *names):
        return DataFrame([{k: v for k, v in r.items() if k not in names} for r in self.rows], [k for k in self.columns if k not in names])

    def filter(self, c):
        c = expr(c) if isinstance(c, str) else c
        return DataFrame([r for r in self.rows if c.f(r)], self.columns)

    where = filter

    def select(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], list) else cs
        if any(isinstance(c, str) and c == "*" for c in cs):
            raise Unsupported("select *")
        cs = [col(c) for c in cs]
        rows = []
        names = []
        for r in self.rows:
            out = [{}]
            for c in cs:
                v = c.f(r)
                if not c.explode:
                    out = [{**o, c.names[0]: v} for o in out]
                elif isinstance(v, dict):
                    names_ = c.names if len(c.names) == 2 else ["key", "value"]
                    out = [{**o, names_[0]: k, names_[1]: x} for o in out for k, x in v.items()]
                else:
                    out = [{**o, c.names[0]: x} for o in out for x in (v or [])]
            rows += out
        for c in cs:
            names += c.names
        return DataFrame(rows, names)

    def distinct(self):
        seen, out = set(), []
        for r in self.rows:
            k = repr(sorted(r.items(), key=lambda kv: kv[0]))
            if k not in seen:
                seen.add(k)
                out.append(r)
        random.shuffle(out)  # in no particular order
        return DataFrame(out, self.columns)

    def orderBy(self, *cs):
        cs = [col(c) for c in cs]
        return DataFrame(sorted(self.rows, key=lambda r: tuple(c.f(r) for c in cs)), self.columns)

    def cache(self):
        return self

    persist = unpersist = cache

    @property
    def rdd(self):
        rows = self.rows

        class RDD:
            def __init__(self, xs):
                self.xs = xs

            def flatMap(self, f):
                return RDD([y for x in self.xs for y in f(x)])

            def map(self, f):
                return RDD([f(x) for x in self.xs])

            def collect(self):
                return list(self.xs)
        return RDD([tuple(r.values()) for r in rows])

    def collect(self):
        return [Row(r) for r in self.rows]

    def count(self):
        return len(self.rows)

    def groupBy(self, *names):
        rows, cols = self.rows, self.columns
        groups = {}
        for r in rows:
            groups.setdefault(tuple(r[n] for n in names), []).append(r)

        class Grouped:
            def count(self):
                return DataFrame([{**dict(zip(names, k)), "count": len(v)} for k, v in groups.items()], list(names) + ["count"])

            def agg(self, *aggs):
                out = []
                for k, v in groups.items():
                    d = dict(zip(names, k))
                    for a in aggs:
                        if not isinstance(a, _Collect):
                            raise Unsupported("agg")
                        d[a.name] = [x for x in (a.c.f(r) for r in v) if x is not None]
                    out.append(d)
                return DataFrame(out, list(names) + [a.name for a in aggs])
        return Grouped()

    def sampleBy(self, name, fractions, seed=None):
        rng = random.Random(seed)
        return DataFrame([r for r in self.rows if rng.random() < fractions.get(r[name], 0.0)], self.columns)

    def createOrReplaceTempView(self, name):
        TABLES[name] = self

    createTempView = createOrReplaceTempView

    @property
    def write(self):
        df = self

        class Writer:
            def mode(self, m):
                self.m = m
                return self

            def format(self, f):
                return self

            def saveAsTable(self, name):
                if name in TABLES and getattr(self, "m", "") == "errorifexists":
                    raise RuntimeError("table exists")
                TABLES[name] = df
        return Writer()

    def toPandas(self):
        import pandas
        return pandas.DataFrame([[r[c] for c in self.columns] for r in self.rows], columns=self.columns)

    def show(self, *a):
        pass


TABLES = {}
CATALOG = []  # every table name asked about


class Session:
    class sparkContext:
        @staticmethod
        def setLogLevel(level):
            pass

    class _C:
        @staticmethod
        def tableExists(name):
            CATALOG.append(name)
            return name in TABLES
    catalog = _C()
    catalog._jcatalog = catalog

    class read:
        @staticmethod
        def parquet(url):
            return table_at(url)

    def table(self, name):
        return TABLES[name]

    def sql(self, q):
        m = re.fullmatch(r"\s*DESCRIBE FORMATTED (\w+)\s*", q)
        if m:
            rows = [{"col_name": "Type", "data_type": "MANAGED"}, {"col_name": "Location", "data_type": f"file:/warehouse/{m.group(1)}"}]
            return DataFrame(rows, ["col_name", "data_type"])
        m = re.fullmatch(r"\s*SELECT\s+(.*)\s+FROM\s+(\w+)\s*", q, re.S | re.I)
        if not m:
            raise Unsupported(q)
        what, df = m.group(1).strip(), TABLES[m.group(2)]
        if not what.startswith("*"):
            raise Unsupported(q)
        rest = what[1:].strip()
        while rest:
            if not rest.startswith(","):
                raise Unsupported(q)
            p = Parser(rest[1:])
            e = p.parse_expr()
            if p.peek() is None or p.next().upper() != "AS":
                raise Unsupported(q)
            name = p.next()
            df = df.withColumn(name, Column(lambda r, e=e: evaluate(e, r)))
            rest = p.s[p.tok[p.i][1]:] if p.i < len(p.tok) else ""
        return DataFrame([dict(r) for r in df.rows], df.columns)


class _Builder:
    def enableHiveSupport(self):
        return self

    def config(self, k, v):
        return self

    def getOrCreate(self):
        return Session()


class SparkSession:
    builder = _Builder()


def table_at(url):
    m = re.fullmatch(r"(?:file://)?/warehouse/(\w+)", url)
    if not m or m.group(1) not in TABLES:
        raise FileNotFoundError(url)
    return TABLES[m.group(1)]


# ---- SQL expressions
TOKEN = re.compile(r"\s*(->|<=|>=|<>|!=|==|\|\||[-+*/%(),=<>\[\].]|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+|\d+(?:[eE][-+]?\d+)?|'[^']*'|[A-Za-z_]\w*)")


class Parser:
    def __init__(self, s):
        self.s, self.tok, self.i = s, [], 0
        p = 0
        while p < len(s.rstrip()):
            m = TOKEN.match(s, p)
            if not m:
                raise Unsupported(s)
            self.tok.append((m.group(1), m.start(1)))
            p = m.end()

    def peek(self, k=0):
        return self.tok[self.i + k][0] if self.i + k < len(self.tok) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Unsupported(self.s)
        self.i += 1
        return t

    def expect(self, t):
        if self.next().upper() != t:
            raise Unsupported(self.s)

    def word(self, *ws):
        t = self.peek()
        return t is not None and t.upper() in ws

    def parse_expr(self):
        return self.binary(0)

    LEVELS = [("OR",), ("AND",), ("=", "==", "<>", "!=", "<", "<=", ">", ">="), ("+", "-"), ("*", "/", "%")]

    def binary(self, lvl):
        if lvl == len(self.LEVELS):
            return self.unary()
        a = self.binary(lvl + 1)
        while self.word(*self.LEVELS[lvl]):
            op = self.next().upper()
            a = ("op", op, a, self.binary(lvl + 1))
        return a

    def unary(self):
        if self.word("-"):
            self.next()
            return ("neg", self.unary())
        if self.word("NOT"):
            self.next()
            return ("not", self.unary())
        e = self.atom()
        while self.word("[", "."):
            if self.next() == "[":
                e = ("item", e, self.parse_expr())
                self.expect("]")
            else:
                e = ("item", e, ("lit", self.next()))
        return e

    def atom(self):
        t = self.next()
        if t == "(":
            # a function's parameters or a parenthesis
            j = self.i
            names = []
            while self.peek() and re.fullmatch(r"[A-Za-z_]\w*", self.peek()):
                names.append(self.next())
                if self.word(","):
                    self.next()
            if names and self.word(")") and self.peek(1) == "->":
                self.next(), self.next()
                return ("lambda", names, self.parse_expr())
            self.i = j
            e = self.parse_expr()
            self.expect(")")
            return e
        if t[0] == "'":
            return ("lit", t[1:-1])
        if t[0].isdigit() or (t[0] == "." and len(t) > 1):
            return ("lit", float(t) if re.search(r"[.eE]", t) else int(t))
        u = t.upper()
        if u in ("NULL", "TRUE", "FALSE"):
            return ("lit", {"NULL": None, "TRUE": True, "FALSE": False}[u])
        if u == "CASE":
            arms = []
            while self.word("WHEN"):
                self.next()
                c = self.parse_expr()
                self.expect("THEN")
                arms.append((c, self.parse_expr()))
            other = ("lit", None)
            if self.word("ELSE"):
                self.next()
                other = self.parse_expr()
            self.expect("END")
            return ("case", arms, other)
        if u == "CAST":
            self.expect("(")
            e = self.parse_expr()
            self.expect("AS")
            ty = self.next()
            self.expect(")")
            return ("call", ty.upper(), [e])
        if self.word("("):
            self.next()
            args = []
            while not self.word(")"):
                args.append(self.parse_expr())
                if self.word(","):
                    self.next()
            self.next()
            return ("call", u, args)
        if self.word("->"):
            self.next()
            return ("lambda", [t], self.parse_expr())
        return ("col", t)


def parse(s):
    p = Parser(s)
    e = p.parse_expr()
    if p.peek() is not None:
        raise Unsupported(s)
    return e


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b if b else None, "%": lambda a, b: math.fmod(a, b) if b else None, "=": lambda a, b: a == b,
       "==": lambda a, b: a == b, "<>": lambda a, b: a != b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "AND": lambda a, b: a and b, "OR": lambda a, b: a or b}
CALLS = {"REVERSE": lambda v: v[::-1], "SIZE": len, "CARDINALITY": len, "ABS": abs, "POWER": lambda a, b: float(a) ** b, "POW": lambda a, b: float(a) ** b, "SQRT": math.sqrt, "GREATEST": max, "LEAST": min,
         "ARRAY": lambda *a: list(a), "ELEMENT_AT": lambda v, k: v.get(k) if isinstance(v, dict) else v[k - 1 if k > 0 else k], "SLICE": lambda v, a, n: v[a - 1: a - 1 + n], "EXP": math.exp, "LN": math.log,
         "SEQUENCE": lambda a, b: list(range(int(a), int(b) + 1)), "MAP_KEYS": list, "MAP_VALUES": lambda m: list(m.values()), "ARRAY_MAX": max, "ARRAY_MIN": min, "SIGN": lambda a: float((a > 0) - (a < 0))}


def evaluate(e, r):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "col":
        if e[1] in r:
            return r[e[1]]
        low = {n.lower(): n for n in r}
        if e[1].lower() not in low:
            raise KeyError(f"no column {e[1]}")
        return r[low[e[1].lower()]]
    if k == "neg":
        v = evaluate(e[1], r)
        return None if v is None else -v
    if k == "not":
        v = evaluate(e[1], r)
        return None if v is None else not v
    if k == "item":
        v, i = evaluate(e[1], r), evaluate(e[2], r)
        return None if v is None else v.get(i) if isinstance(v, dict) else (v[i] if 0 <= i < len(v) else None)
    if k == "op":
        a, b = evaluate(e[2], r), evaluate(e[3], r)
        return None if a is None or b is None else OPS[e[1]](a, b)
    if k == "case":
        for c, v in e[1]:
            if evaluate(c, r):
                return evaluate(v, r)
        return evaluate(e[2], r)
    if k == "lambda":
        return lambda *xs: evaluate(e[2], {**r, **dict(zip(e[1], xs))})
    if k == "call":
        name = e[1]
        if name == "COALESCE":
            for a in e[2]:
                v = evaluate(a, r)
                if v is not None:
                    return v
            return None
        if name == "IF":
            return evaluate(e[2][1] if evaluate(e[2][0], r) else e[2][2], r)
        if name == "ISNULL":
            return evaluate(e[2][0], r) is None
        args = [evaluate(a, r) for a in e[2]]
        if any(a is None for a in args):
            return None
        if name in NAMED:
            return NAMED[name].cast(args[0])
        if name in ("AGGREGATE", "REDUCE"):
            s = args[1]
            for x in args[0]:
                s = args[2](s, x)
            return args[3](s) if len(args) > 3 else s
        if name == "TRANSFORM":
            return [(args[1](x, i) if len(e[2][1][1]) == 2 else args[1](x)) for i, x in enumerate(args[0])]
        if name == "ZIP_WITH":
            return [args[2](x, y) for x, y in zip(args[0], args[1])]
        if name == "FILTER":
            return [x for x in args[0] if args[1](x)]
        if name not in CALLS:
            raise Unsupported(name)
        return CALLS[name](*args)
    raise Unsupported(k)


# ---- petastorm
READS = []  # (url, batch sizes asked for)


class Reader:
    def __init__(self, url, **kw):
        self.df = table_at(url)
        self.url, self.closed = url, False


def make_batch_reader(url, num_epochs=1, **kw):
    if num_epochs != 1:
        raise Unsupported("num_epochs")
    return Reader(url, **kw)


def decimal_friendly_collate(rows):
    return torch.utils.data.dataloader.default_collate(rows)


class DataLoader:
    def __init__(self, reader, batch_size=1, collate_fn=decimal_friendly_collate, **kw):
        self.reader, self.n, self.collate = reader, batch_size, collate_fn
        READS.append([reader.url, batch_size, 0])
        self.log = READS[-1]

    def __iter__(self):
        rows = []
        for r in self.reader.df.rows:
            rows.append({k: np.array(v, dtype=np.float32 if isinstance(v, list) and v and isinstance(v[0], float) else None) if isinstance(v, list) else np.float32(v) if isinstance(v, float) else v for k, v in r.items()})
            if len(rows) == self.n:
                self.log[2] += 1
                yield self.collate(rows)
                rows = []
        if rows:
            self.log[2] += 1
            yield self.collate(rows)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.reader.closed = True


def install():
    if not isinstance(sys.modules["pyspark"], stubs._Mod):
        raise Unsupported("a real data platform is installed")
    me = globals()
    for mod, names in {"pyspark.sql.functions": ["col", "crc32", "explode", "map_keys", "map_values", "udf", "lit", "size", "reverse", "collect_list", "coalesce", "expr"],
                       "pyspark.sql.types": ["FloatType", "DoubleType", "LongType", "IntegerType", "ShortType", "BooleanType", "StringType", "ArrayType", "MapType", "StructField", "StructType"],
                       "pyspark.sql": ["SparkSession", "DataFrame", "Row"], "petastorm": ["make_batch_reader"], "petastorm.pytorch": ["DataLoader", "decimal_friendly_collate"]}.items():
        for n in names:
            setattr(sys.modules[mod], n, me[n])


install()


def put(name, rows):
    cols = list(rows[0]) if rows else []
    TABLES[name] = DataFrame([dict(r) for r in rows], cols)


def clear():
    TABLES.clear()
    del READS[:], CATALOG[:]
