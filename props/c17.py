"""C17: tabular data sources answer like the table they stand for."""
import datetime
from decimal import Decimal
import re
import sqlite3
import sys
import types

from hypothesis import strategies as st

from vlib.case import expect
from vlib.runner import Part

RULE = ("Random histories of insert, select, select_column, delete and clear over two tables with clashing contents, on each kind of data "
        "source; MySQL and PostgreSQL run on a connection stand-in that applies the DB-API placeholder rules (%s, %%) and executes on SQLite. "
        "Every select is compared with a list-of-rows model. Values contain quotes, SQL fragments, wildcards, percent signs, placeholders, "
        "unicode, numbers as text. Non-trivial: a select with at least one given value that returns some but not all rows.")
ASSUMPTIONS = ["columns have no declared type or uniqueness constraint", "table and column names are trusted identifiers",
               "the servers behind MySQL and PostgreSQL compare text exactly", "no NaN or negative zero, no truth value where there are numbers", "deleted values are not empty"]

TEXTS = ["a", "A", "b", "", " a", "a ", "1", "1.0", "None", "NULL", "it's", "''", '"', "%", "%s", "%%", "_", "a%", "?", "\\", "a\nb", "é", "e\u0301", "日本", "\U0001f600",
         "'; DROP TABLE t0; --", "' OR '1'='1", "c0", "x' AND c1='b", "\x00", "{}", "{0}", ":1", "$1", "İ"]
NUMBERS = [0, 1, -1, 2, 1.5, 1e300, 2 ** 62]
# values that are easily taken for each other
FAMILIES = [["a", "A", " a", "a ", "a%", "a\x00"], ["1", 1, "1.0", "01", " 1"], ["0", 0, "", "None", "NULL"], ["é", "e\u0301", "É", "e"], ["it's", "it''s", "its", "it\\'s"],
            ["%", "%%", "_", "a", "%s"], [1, 2, 10, "10", 1.5], ["bob", "Bob", "BOB", "bo", "bobb"], ["\n", "\r\n", " ", "", "\\n"]]
# other types of values, for the sources that can hold them
TYPED = {'simple': [True, False, datetime.date(2020, 1, 2), Decimal("12.50"), b"a", b""], 'sqlite': [b"a", b"", b"b"], 'mysql': [datetime.date(2020, 1, 2), Decimal("12.50"), b"a", b""],
         'psycopg2': [True, False, datetime.date(2020, 1, 2), Decimal("12.50"), b""], 'psycopg3': [True, False, False, datetime.date(2020, 1, 2), b""]}
TABLES = {'t0': ['c0', 'c1', 'c2'], 't1': ['c1', 'c0'], 'select1': ['a']}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['simple', 'simple', 'sqlite', 'sqlite', 'mysql', 'psycopg2', 'psycopg3']))
    pool = draw(st.lists(st.one_of(st.sampled_from(TEXTS), st.sampled_from(TEXTS), st.sampled_from(NUMBERS),
                                   st.text(alphabet=st.characters(exclude_categories=['Cs']), max_size=3)), min_size=2, max_size=5, unique_by=repr))
    if draw(st.booleans()):
        pool = draw(st.lists(st.sampled_from(draw(st.sampled_from(FAMILIES))), min_size=2, max_size=4, unique_by=repr)) + pool[:1]
    if kind == 'simple' and draw(st.booleans()):
        pool = pool + [draw(st.sampled_from([[], ["a"], ["a", "b"], ("a",)]))]
    if draw(st.integers(0, 3)) == 3:
        # numbers that equal a truth value are left out
        pool = [v for v in pool if not isinstance(v, (int, float))][:2] + draw(st.lists(st.sampled_from(TYPED[kind]), min_size=1, max_size=3, unique_by=repr))
        typed = True
    else:
        typed = False
    value = st.sampled_from(pool)
    cell = st.sampled_from(pool + pool + [None])
    extra = value if typed else st.one_of(value, value, value, value, st.sampled_from(TEXTS), st.sampled_from(NUMBERS))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        table = draw(st.sampled_from(['t0', 't0', 't0', 't1', 'select1']))
        columns = TABLES[table]
        picked = draw(st.permutations(columns))
        picked = list(picked[:draw(st.sampled_from([len(columns), len(columns), 2, 1]))])
        op = draw(st.sampled_from(['insert', 'insert', 'insert', 'insert', 'select', 'select', 'select', 'column', 'delete', 'clear']))
        # values of a row that was inserted
        rows = [dict(zip(o[2], o[3])) for o in ops if o[0] == 'insert' and o[1] == table]
        row = draw(st.sampled_from(rows)) if rows and draw(st.integers(0, 2)) else {}
        if op == 'delete' and kind == 'sqlite':
            ops.append(('delete', table, picked, [row[c] if row.get(c) is not None else draw(extra) for c in picked]))
        elif op == 'clear' and kind == 'simple' and draw(st.integers(0, 2)) == 0:
            ops.append(('clear',))
        elif op in ('select', 'column'):
            ops.append((op, table, picked, [(row[c] if c in row else draw(extra)) if draw(st.integers(0, 2)) == 0 else None for c in picked]))
        else:
            ops.append(('insert', table, picked, [draw(cell) for _ in picked]))
    ops.append(('select', 't0', TABLES['t0'], [draw(value), None, None]))
    if draw(st.booleans()):
        ops.append(('select', 't0', TABLES['t0'][::-1], [None, None, None]))
    return dict(kind=kind, ops=ops, dicts=draw(st.booleans()))


def encode(value):
    """SQLite has no such values"""
    return b"V:" + repr(value).encode() if isinstance(value, (bool, datetime.date, Decimal)) else value


def decode(value):
    return eval(value[2:], {'datetime': datetime, 'Decimal': Decimal}) if isinstance(value, bytes) and value[:2] == b"V:" else value


class Cursor:
    """the DB-API cursor of a server that runs on SQLite"""
    def __init__(self, connection, dicts):
        self.cursor = connection.cursor()
        self.dicts = dicts

    def execute(self, query, args=None, **_):
        values = list(args) if args is not None else []
        used = []

        def place(match):
            if match.group(1) == 's':
                used.append(1)
                return '?'
            if match.group(1) == '%':
                return '%'
            raise ValueError("unsupported format character in the query: " + query)
        text = re.sub(r"%(.?)", place, query) if args is not None else query
        if len(used) != len(values):
            raise ValueError(f"the query has {len(used)} placeholders for {len(values)} values: {query}")
        self.cursor.execute(text, [encode(v) for v in values])
        return self

    def row(self, row):
        if row is None:
            return row
        row = tuple(decode(v) for v in row)
        if not self.dicts:
            return row
        return {d[0]: v for d, v in zip(self.cursor.description, row)}

    def fetchall(self):
        return [self.row(r) for r in self.cursor.fetchall()]

    def fetchone(self):
        return self.row(self.cursor.fetchone())

    def fetchmany(self, size=1):
        return [self.row(r) for r in self.cursor.fetchmany(size)]

    def __iter__(self):
        return iter(self.fetchall())

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    @property
    def description(self):
        return self.cursor.description

    @property
    def rowcount(self):
        return self.cursor.rowcount

    def close(self):
        self.cursor.close()


class Connection:
    def __init__(self, kind, dicts):
        self.inner = sqlite3.connect(":memory:")
        self.kind, self.dicts = kind, dicts

    def cursor(self, *args, **options):
        # the connection may be set up to give dictionaries, unless asked for plain rows
        plain = not self.dicts or any(o is TUPLES for o in list(options.values()) + list(args))
        return Cursor(self.inner, not plain)

    def commit(self):
        pass

    def rollback(self):
        pass


class TUPLES:
    pass


def stub_modules():
    psycopg2 = types.ModuleType("psycopg2")
    psycopg2.extensions = types.ModuleType("psycopg2.extensions")
    psycopg2.extensions.cursor = TUPLES
    psycopg = types.ModuleType("psycopg")
    psycopg.rows = types.ModuleType("psycopg.rows")
    psycopg.rows.tuple_row = TUPLES
    for m in (psycopg2, psycopg2.extensions, psycopg, psycopg.rows):
        sys.modules[m.__name__] = m


def make_source(kind, dicts):
    if kind == 'simple':
        from richard.data_source.SimpleDataSource import SimpleDataSource
        return SimpleDataSource(), None
    if kind == 'sqlite':
        from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
        connection = sqlite3.connect(":memory:")
        return Sqlite3DataSource(connection), connection
    stub_modules()
    connection = Connection(kind, dicts and kind != 'mysql')
    if kind == 'mysql':
        from richard.data_source.MySqlDataSource import MySqlDataSource
        return MySqlDataSource(connection), connection.inner
    if kind == 'psycopg2':
        from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
        return PsycoPg2DataSource(connection), connection.inner
    from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource
    return PsycoPg3DataSource(connection), connection.inner


def image(rows):
    return sorted(tuple((type(v).__name__, repr(v)) for v in r) for r in rows)


def check(case, rec):
    kind = case['kind']
    source, connection = make_source(kind, case['dicts'])
    model = {name: [] for name in TABLES}
    if connection:
        for name, columns in TABLES.items():
            connection.execute(f"CREATE TABLE {name} ({', '.join(columns)})")

    def matching(table, columns, values):
        return [r for r in model[table] if all(v is None or r[c] == v for c, v in zip(columns, values))]

    for n, op in enumerate(case['ops']):
        if op[0] == 'clear':
            source.clear()
            model = {name: [] for name in TABLES}
            continue
        name, table, columns, values = op
        given_columns, given_values = list(columns), list(values)
        if name == 'insert':
            row = {c: None for c in TABLES[table]}
            row.update(zip(columns, values))
            model[table].append(row)
            if kind in ('simple', 'sqlite'):
                source.insert(table, given_columns, given_values)
            else:
                connection.execute(f"INSERT INTO {table} ({', '.join(columns)}) VALUES ({', '.join('?' * len(values))})", [encode(v) for v in values])
            rec.label("insert")
        elif name == 'delete':
            gone = matching(table, columns, values)
            model[table] = [r for r in model[table] if not any(r is g for g in gone)]
            source.delete(table, given_columns, given_values)
            rec.label("delete some" if gone else "delete none")
        else:
            wanted = [[r[c] for c in columns] for r in matching(table, columns, values)]
            if name == 'column':
                found = [[v] for v in source.select_column(table, given_columns, given_values)]
                wanted = [r[:1] for r in wanted]
            else:
                found = source.select(table, given_columns, given_values)
                expect(isinstance(found, list) and all(isinstance(r, list) for r in found), "a select does not return a list of lists", found=found)
            expect(image(found) == image(wanted), "a select does not return the matching rows of the table", source=kind, select=op, found=found,
                   expected=wanted, history=case['ops'][:n])
            some = any(v is not None for v in values)
            rec.label("selects all" if not some else "selects none" if not wanted else "selects some")
            rec.interesting(some and 0 < len(wanted) < len(model[table]))
            # the rows that were returned belong to the caller
            for r in found:
                r.append("scribble")
                r[0] = "scribble"
            found.append(["scribble"])
        expect(given_columns == columns and given_values == values, "the lists of the caller were changed", before=op, after=(given_columns, given_values))
        given_values[:] = ["scribble"] * len(given_values)
    # the tables themselves
    for table, columns in TABLES.items():
        if connection:
            found = [[decode(v) for v in r] for r in connection.execute(f"SELECT {', '.join(columns)} FROM {table}")]
        else:
            found = source.select(table, columns, [None] * len(columns))
        wanted = [[r[c] for c in columns] for r in model[table]]
        expect(image(found) == image(wanted), "a table does not contain what was stored", table=table, found=found, expected=wanted, history=case['ops'])
    rec.label(kind)


# ---------------------------------------------------------------- larger tables

@st.composite
def large_cases(draw):
    count = draw(st.sampled_from([40, 120, 300, 700, 1300, 2600]))
    modulus = draw(st.lists(st.sampled_from([1, 2, 3, 7, 50, 10000]), min_size=3, max_size=3))
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        picked = list(draw(st.permutations(TABLES['t0'])))[:draw(st.integers(1, 3))]
        queries.append((picked, [draw(st.sampled_from([None, None, 0, 1, 5, count - 1])) for _ in picked]))
    return dict(kind=draw(st.sampled_from(['simple', 'sqlite', 'mysql', 'psycopg2', 'psycopg3'])), count=count, modulus=modulus, text=draw(st.booleans()), queries=queries,
                dicts=draw(st.booleans()))


def check_large(case, rec):
    kind = case['kind']
    source, connection = make_source(kind, case['dicts'])
    columns = TABLES['t0']
    form = (lambda n: f"n{n}") if case['text'] else (lambda n: n)
    rows = [[form((i * 7) % m) for m in case['modulus']] for i in range(case['count'])]
    if connection:
        connection.execute(f"CREATE TABLE t0 ({', '.join(columns)})")
    if kind == 'simple':
        for r in rows:
            source.insert('t0', columns, r)
    else:
        connection.executemany("INSERT INTO t0 VALUES (?, ?, ?)", rows)
    for picked, values in case['queries']:
        values = [None if v is None else form(v) for v in values]
        numbers = [columns.index(c) for c in picked]
        wanted = [[r[n] for n in numbers] for r in rows if all(v is None or r[n] == v for n, v in zip(numbers, values))]
        found = source.select('t0', list(picked), list(values))
        expect(len(found) == len(wanted), "a select does not return as many rows as the table has", source=kind, query=(picked, values), found=len(found), expected=len(wanted))
        expect(image(found) == image(wanted), "a select does not return the matching rows of a large table", source=kind, query=(picked, values))
        rec.interesting(len(wanted) > 100)
        rec.label("over 1000 rows" if len(wanted) > 1000 else "over 100 rows" if len(wanted) > 100 else "few rows")
    rec.label(kind)


PARTS = [Part("histories", cases, check, quick=8000, thorough=200000), Part("large", large_cases, check_large, quick=300, thorough=6000)]
