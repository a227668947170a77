"""
Data for solver checks. facts: {predicate: (arity, [rows])}; a store says which module and which kind of data source
holds which rows.
"""
import sqlite3

from hypothesis import strategies as st

VALUES = [1, 2, 3, 0, "a", "b", "c", "1", "", "a'b", "É", "A", "a b"]
VARS = ['?X', '?Y', '?Z', '?E1', '?E2', '?A']


def frozen_rows(rows):
    return [tuple(r) for r in rows]


@st.composite
def facts(draw, predicates=("p", "q", "r", "t"), values=VALUES, max_rows=6, max_arity=3, arities=None):
    out = {}
    pool = draw(st.lists(st.sampled_from(values), min_size=2, max_size=5, unique_by=lambda v: (type(v).__name__, v)))
    for name in predicates:
        arity = arities[name] if arities else draw(st.sampled_from([n for n in (1, 2, 3, 1, 2, 3, 2, 4, 5) if n <= max_arity]))
        rows = draw(st.lists(st.tuples(*[st.sampled_from(pool)] * arity), max_size=max_rows))
        out[name] = (arity, rows)
    return out


def make_relation(kind, name, arity, rows, sizes=None, connection=None):
    """a Relation over the rows, backed by a Python list, the in-memory data source or SQLite"""
    from richard.entity.Relation import Relation
    columns = [f"c{i}" for i in range(arity)]
    options = dict(relation_size=sizes[0], argument_sizes=sizes[1]) if sizes else {}
    if kind == 'list':
        def query(values, context):
            return [list(r) for r in rows if all(v is None or (type(v) is type(x) and v == x) for v, x in zip(values, r))]
        return Relation(name, arguments=columns, query_function=query, **options)
    if kind == 'simple':
        from richard.data_source.SimpleDataSource import SimpleDataSource
        ds = SimpleDataSource()
    else:
        from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
        connection.execute(f"CREATE TABLE {name} ({', '.join(columns)})")
        ds = Sqlite3DataSource(connection)
    for r in rows:
        ds.insert(name, columns, list(r))
    return Relation(name, arguments=columns, query_function=lambda values, context: ds.select(name, columns, values), **options)


def make_model(placed, sizes=None, extra=()):
    """placed: list of modules, each a list of (kind, name, arity, rows)"""
    from richard.core.Model import Model
    from richard.interface.SomeModule import SomeModule
    modules = []
    for content in placed:
        connection = sqlite3.connect(":memory:") if any(c[0] == 'sqlite' for c in content) else None
        module = SomeModule.__new__(type("M", (SomeModule,), {}))
        module.__init__()
        for kind, name, arity, rows in content:
            module.add_relation(make_relation(kind, name, arity, rows, sizes and sizes.get(name), connection))
        modules.append(module)
    return Model(modules + list(extra))


@st.composite
def placements(draw, data, kinds=('list', 'list', 'simple', 'sqlite')):
    """spread the rows over modules; each relation is in one or more of them, rows may be in several"""
    n = draw(st.integers(1, 3))
    modules = [[] for _ in range(n)]
    for name, (arity, rows) in data.items():
        homes = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        parts = {h: [] for h in homes}
        for row in rows:
            for h in draw(st.lists(st.sampled_from(homes), min_size=1, max_size=2, unique=True)) if len(homes) > 1 else homes:
                parts[h].append(row)
        for h in homes:
            modules[h].append((draw(st.sampled_from(kinds)), name, arity, parts[h]))
    return modules


def same_value(a, b):
    return type(a) is type(b) and a == b


def unify(args, row, binding):
    """the binding extended so that args equal row, or None"""
    out = binding
    for a, v in zip(args, row):
        if isinstance(a, str) and len(a) > 1 and a[0] == '?':
            name = a[1:]
            if name in out:
                if not same_value(out[name], v):
                    return None
            else:
                out = {**out, name: v}
        elif not same_value(a, v):
            return None
    return out


def distinct(bindings):
    seen, out = set(), []
    for b in bindings:
        k = tuple(sorted((n, type(v).__name__, repr(v)) for n, v in b.items()))
        if k not in seen:
            seen.add(k)
            out.append(b)
    return out


def keyed(bindings):
    return sorted(tuple(sorted((n, type(v).__name__, repr(v)) for n, v in b.items())) for b in bindings)
