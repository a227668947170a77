"""C18: importing a CSV file reproduces its rows exactly."""
import os
import shutil
import sqlite3
import tempfile

from hypothesis import strategies as st

from vlib.case import expect
from vlib.runner import Part

RULE = ("Random tables of text cells (separators, quotes, all kinds of line breaks, blanks, numbers as text, empty, unicode) written with "
        "random quoting, line terminators, blank lines and with or without a final line break, imported into a recorder, the in-memory or the "
        "SQLite source; the inserted records are compared with the table. Non-trivial: at least two records and a cell that needs quoting.")
ASSUMPTIONS = ["every record has as many cells as the header", "UTF-8, no byte order mark", "headers are distinct"]

CELLS = ["a", "b c", "", " a", "a ", ",", "a,b", '"', 'say "hi"', '""', "\n", "a\nb", "a\r\nb", "a\rb", "\r\n", "\n\n", "1", "01", "+1", "-2", "1.50", "1e3", "True", "None", "nan",
         "a|b", "|", ";", "\t", "a\tb", "'", "#x", "é", "日本", "\u2028", "\x0b", "\x85", "\x1c", "\\", "\\n", "%s", "{}", " ", "  ", "NULL", "a\n", "\na", ",\n\"", "\x00x", "\ufeffq"]
HEADERS = ["id", "name", "Name", "a b", " id", "name ", "", "x,y", "q\"", "line\nbreak", "é", "1", "_", "type"]


@st.composite
def cases(draw):
    target = draw(st.sampled_from(['record', 'record', 'simple', 'sqlite']))
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    headers = draw(st.lists(st.sampled_from(HEADERS[:2] + ["c", "d"] if target == 'sqlite' else HEADERS), min_size=n, max_size=n, unique=True))
    if target == 'sqlite':
        headers = [f"c{i}" for i in range(n)]
    cell = st.one_of(st.sampled_from(CELLS), st.sampled_from(CELLS), st.text(alphabet=st.sampled_from(list('ab,"\r\n 1')), max_size=5),
                     st.text(alphabet=st.characters(exclude_categories=['Cs']), max_size=3))
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        rows = draw(st.lists(st.lists(cell, min_size=n, max_size=n), max_size=6))
        if rows and draw(st.integers(0, 3)) == 0:
            rows = rows + [draw(st.sampled_from(rows))]
        files.append(dict(rows=rows, eol=draw(st.sampled_from(["\n", "\n", "\r\n", "\r\n", "\r"])),
                          quoting=draw(st.lists(st.integers(0, 3), min_size=1, max_size=8)),
                          blanks=draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=1, max_size=4)), final=draw(st.booleans())))
    return dict(target=target, headers=headers, files=files)


def cell_text(cell, quote, alone):
    # a lone empty cell needs quotes, it would be a blank line otherwise
    if quote or any(c in cell for c in ',"\r\n') or (alone and cell == ""):
        return '"' + cell.replace('"', '""') + '"'
    return cell


def write(headers, spec):
    n = 0
    lines = []
    for number, row in enumerate([headers] + spec['rows']):
        cells = []
        for cell in row:
            cells.append(cell_text(cell, spec['quoting'][n % len(spec['quoting'])] == 0, len(row) == 1))
            n += 1
        lines.append(",".join(cells))
        lines.extend([""] * spec['blanks'][number % len(spec['blanks'])])
    return spec['eol'].join(lines) + (spec['eol'] if spec['final'] else "")


def check(case, rec):
    from richard.data_source.CsvImporter import CsvImporter
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.interface.SomeDataSource import SomeDataSource

    class Recorder(SomeDataSource):
        def __init__(self):
            self.log = []

        def select(self, table, columns, values):
            return []

        def insert(self, table, columns, values):
            self.log.append((table, list(columns), list(values)))

    headers = case['headers']
    if case['target'] == 'record':
        source = Recorder()
    elif case['target'] == 'simple':
        source = SimpleDataSource()
    else:
        connection = sqlite3.connect(":memory:")
        connection.execute(f"CREATE TABLE people ({', '.join(headers)})")
        source = Sqlite3DataSource(connection)
    wanted = []
    folder = tempfile.mkdtemp(prefix="verif-csv-")
    try:
        for number, spec in enumerate(case['files']):
            path = os.path.join(folder, f"table {number}.csv")
            text = write(headers, spec)
            with open(path, "wb") as f:
                f.write(text.encode("utf-8"))
            CsvImporter().import_table_from_file("people", path, source)
            wanted += spec['rows']
            with open(path, "rb") as f:
                expect(f.read() == text.encode("utf-8"), "importing changed the file")
    finally:
        shutil.rmtree(folder)
    if case['target'] == 'record':
        found = [v for _, _, v in source.log]
        expect(all(t == "people" and c == headers for t, c, _ in source.log), "wrong table or columns", headers=headers, log=source.log)
    else:
        found = source.select("people", headers, [None] * len(headers))
    expect(found == wanted and all(type(v) is str for r in found for v in r), "the imported rows are not the rows of the file",
           file=[write(headers, s) for s in case['files']], found=found, expected=wanted)
    special = any(any(c in cell for c in ',"\r\n') for r in wanted for cell in r)
    rec.label(case['target'], f"{min(len(wanted), 5)} rows", *(["line break in cell"] if any(c in cell for r in wanted for cell in r for c in "\r\n") else []))
    rec.interesting(len(wanted) > 1 and special)


PARTS = [Part("files", cases, check, quick=8000, thorough=200000)]
