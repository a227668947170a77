"""C19: SPARQL selects return the endpoint's answers, cached or not."""
import json
import os
import re
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

from vlib.case import Known, expect, fail
from vlib.runner import Part

RULE = ("Random triple stores behind a stand-in endpoint that parses each query as SPARQL and answers it; random histories of selects "
        "(any pair of values and column types, hostile texts), failing requests of every kind, damaged, lost and unwritable cache entries "
        "and new sources on an old cache folder; every answer is compared with the triples and every request counted. Non-trivial: a "
        "select with an answer, after a fault, damage or cached answer in the same history; or a text value that needs escaping.")
ASSUMPTIONS = ["identifiers are IRIs without spaces or angle brackets, constants are prefixed names", "damaged entries are truncated, emptied or overwritten "
               "(a flipped bit inside a stored text cannot be noticed)", "the contents of the endpoint do not change", "numbers are integers or plain decimals"]

IRIS = ["http://x.org/Q1", "http://x.org/Q2", "http://x.org/it's", "http://x.org/?a=b&c=%20", "http://x.org/日本"]
CONSTANTS = ["wd:Q1", "wd:Q30", "rdf:type"]
NAMESPACE = {"wd:": "http://x.org/", "rdf:": "http://rdf.org/", "wdt:": "http://p.org/", "rdfs:": "http://rdfs.org/"}
PREDICATES = ["wdt:P26", "rdfs:label", "wdt:P26/wdt:P27"]
TEXTS = ["a", "A", "", "it's", "''", "'''", '"', "\\", "\\'", "a\\", "\\n", "a\nb", "\r", "a\r\nb", "\t", "é", "日本", "\U0001f600", "' . ?s ?p ?o . '", "'@en . } #", "{}", "{0}",
         "1", "0", "2.5", "-3", "?term0", "<a>", "@en", "%s", " a ", "x'@nl", "\\u0041", "\u2028", "None"]
LANGS = ["en", "nl", "pt-br"]
NUMBERS = [1, 0, -3, 2.5]
FAULTS = [403, 429, 400, 500, 503, 404, 'timeout', 'broken json', 'no results', ('json', 500), ('json', 403), ('json', 503), ('json', 429)]

TOKEN = re.compile(r"""
   (?P<ws>\s+|\#[^\n]*)
 | (?P<iri><[^<>"{}|^`\\\x00-\x20]*>)
 | (?P<var>\?\w+)
 | (?P<str>'''(?:(?:'|'')?(?:[^'\\]|\\.))*'''|\"\"\"(?:(?:"|"")?(?:[^"\\]|\\.))*\"\"\"|'(?:[^'\\\n\r]|\\.)*'|"(?:[^"\\\n\r]|\\.)*")
 | (?P<lang>@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*)
 | (?P<num>[+-]?(?:\d+\.\d+|\d+|\.\d+)(?:[eE][+-]?\d+)?)
 | (?P<path>\w+:\w+(?:/\w+:\w+)+)
 | (?P<pname>\w+:\w+)
 | (?P<word>\w+)
 | (?P<punct>[{}().*=])
""", re.X | re.S)


class BadQuery(Exception):
    pass


def tokens(query):
    out, pos = [], 0
    while pos < len(query):
        m = TOKEN.match(query, pos)
        if not m:
            raise BadQuery(f"no token at {query[pos:pos + 20]!r}")
        pos = m.end()
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
    return out


ESCAPES = {'t': '\t', 'b': '\b', 'n': '\n', 'r': '\r', 'f': '\f', '\\': '\\', "'": "'", '"': '"'}


def unescape(text):
    def one(m):
        c = m.group(1)
        if c[0] in 'uU':
            return chr(int(c[1:], 16))
        if c not in ESCAPES:
            raise BadQuery("unknown escape \\" + c)
        return ESCAPES[c]
    return re.sub(r"\\(u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|.)", one, text, flags=re.S)


def parse_query(query):
    """(variables or '*', subject, predicate, object, {variable: language})"""
    ts = tokens(query)
    pos = 0

    def peek():
        return ts[pos] if pos < len(ts) else (None, None)

    def take(kind=None, text=None):
        nonlocal pos
        k, t = peek()
        if (kind and k != kind) or (text is not None and t.upper() != text):
            raise BadQuery(f"expected {text or kind}, found {t!r}")
        pos += 1
        return t

    def term():
        k, t = peek()
        if k == 'var':
            return ('var', take()[1:])
        if k == 'iri':
            return ('iri', take()[1:-1])
        if k == 'pname':
            take()
            prefix, name = t.split(":", 1)
            return ('iri', NAMESPACE[prefix + ":"] + name)
        if k == 'num':
            return ('num', float(take()))
        if k == 'str':
            take()
            n = 3 if t[:3] in ("'''", '"""') and len(t) >= 6 else 1
            value = unescape(t[n:-n])
            lang = take()[1:] if peek()[0] == 'lang' else ''
            return ('lit', value, lang)
        raise BadQuery(f"expected a term, found {t!r}")

    take('word', 'SELECT')
    variables = []
    if peek()[1] == '*':
        take()
        variables = '*'
    else:
        while peek()[0] == 'var':
            variables.append(take()[1:])
        if not variables:
            raise BadQuery("nothing selected")
    if peek() == ('word', 'WHERE') or (peek()[1] or '').upper() == 'WHERE':
        take()
    take('punct', '{')
    subject = term()
    kind, predicate = peek()
    if kind not in ('pname', 'path', 'iri'):
        raise BadQuery(f"expected a predicate, found {predicate!r}")
    take()
    obj = term()
    filters = {}
    while True:
        if peek()[1] == '.':
            take()
        elif (peek()[1] or '').upper() == 'FILTER':
            take()
            take('punct', '(')
            take('word', 'LANG')
            take('punct', '(')
            var = take('var')[1:]
            take('punct', ')')
            take('punct', '=')
            value = term()
            take('punct', ')')
            if value[0] != 'lit':
                raise BadQuery("language is not a string")
            filters[var] = value[1]
        else:
            break
    take('punct', '}')
    if pos != len(ts):
        raise BadQuery("text after the end of the query")
    return variables, subject, predicate, obj, filters


def answer(triples, parsed):
    """the solutions of a parsed query"""
    variables, subject, predicate, obj, filters = parsed
    out = []
    for s, p, o in triples:
        if p != predicate:
            continue
        solution, ok = {}, True
        for t, node in ((subject, s), (obj, o)):
            if t[0] == 'var':
                if t[1] in filters and not (node[0] == 'lit' and node[2] == filters[t[1]]):
                    ok = False
                if solution.setdefault(t[1], node) != node:
                    ok = False
            elif t != node:
                ok = False
        if ok:
            names = list(solution) if variables == '*' else variables
            out.append({n: solution[n] for n in names if n in solution})
    return out


def node_of(value, column, lang):
    """the term that a value of a column stands for"""
    if isinstance(value, str):
        if column == 'id':
            return ('iri', value)
        if column == 'constant':
            prefix, name = value.split(":", 1)
            return ('iri', NAMESPACE[prefix + ":"] + name)
        return ('lit', value, lang)
    return ('num', float(value))


def text_of(node):
    return node[1] if node[0] != 'num' else repr(node[1])


def expected_rows(triples, table, columns, values, lang):
    rows = []
    for s, p, o in triples:
        if p != table:
            continue
        row, ok = [], True
        for column, value, node in zip(columns, values, (s, o)):
            if value is None:
                if column == 'text' and not (node[0] == 'lit' and node[2] == lang):
                    ok = False
                row.append(text_of(node))
            else:
                ok = ok and node == node_of(value, column, lang)
                row.append(value)
        if ok:
            rows.append(row)
    return rows


# ---------------------------------------------------------------- cases

@st.composite
def terms(draw, langs):
    column = draw(st.sampled_from(['id', 'text', 'text', 'constant', 'number']))
    if column == 'id':
        return 'id', draw(st.sampled_from(IRIS))
    if column == 'constant':
        return 'constant', draw(st.sampled_from(CONSTANTS))
    if column == 'number':
        return draw(st.sampled_from(['number', 'text', 'id'])), draw(st.sampled_from(NUMBERS))
    return 'text', draw(st.one_of(st.sampled_from(TEXTS), st.sampled_from(TEXTS), st.text(alphabet=st.characters(exclude_categories=['Cs']), max_size=3)))


@st.composite
def twins(draw, table, columns, values):
    columns, values = list(columns), list(values)
    i = draw(st.integers(0, 1))
    value, column = values[i], columns[i]
    other = value
    if value is None:
        if column in ('text', 'number') and draw(st.booleans()):
            other = draw(st.sampled_from(["None", ""]))
        elif column in ('id', 'text'):
            columns[i] = 'text' if column == 'id' else 'id'
    elif not isinstance(value, str):
        other, columns[i] = (str(value), column if column == 'number' else 'text') if draw(st.booleans()) else (-value, column)
    elif column == 'text':
        number = [n for n in NUMBERS if str(n) == value]
        other = draw(st.sampled_from(number + [value.upper(), value.lower(), value + " ", " " + value, value + value, value.strip(), value[:-1], value[1:], value.replace("'", '"'), None]))
    else:
        other = draw(st.sampled_from(IRIS if column == 'id' else CONSTANTS))
    values[i] = other
    if draw(st.integers(0, 4)) == 4:
        columns.reverse()
        values.reverse()
    if draw(st.integers(0, 9)) == 9:
        table = draw(st.sampled_from(PREDICATES))
    return ('select', table, columns, values)


@st.composite
def cases(draw):
    langs = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=2, unique=True))
    pool = draw(st.lists(terms(langs), min_size=2, max_size=5))
    triples, about = [], []
    asked = draw(st.sampled_from(langs))
    for _ in range(draw(st.integers(1, 7))):
        s, o = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
        lang = draw(st.sampled_from(langs + [asked, asked, ""]))
        triple = (node_of(s[1], s[0], lang), draw(st.sampled_from(PREDICATES[:2] + PREDICATES)), node_of(o[1], o[0], lang))
        if triple not in triples:
            triples.append(triple)
            about.append((s, triple[1], o))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        op = draw(st.sampled_from(['select', 'select', 'select', 'select', 'repeat', 'repeat', 'repeat', 'twin', 'twin', 'fault', 'damage', 'damage', 'reopen', 'folder']))
        done = [o for o in ops if o[0] == 'select']
        if op == 'repeat' and done:
            ops.append(draw(st.sampled_from(done)))
        elif op == 'twin' and done:
            # a select that differs in one respect only, with an answer of its own
            _, table, columns, values = draw(st.sampled_from(done))
            twin = draw(twins(table, columns, values))
            nodes = [node_of(draw(st.sampled_from(IRIS)), 'id', asked) if v is None and c != 'text' else node_of("twin", 'text', asked) if v is None
                     else node_of(v, c, asked) for c, v in zip(twin[2], twin[3])]
            if (nodes[0], twin[1], nodes[1]) not in triples:
                triples.append((nodes[0], twin[1], nodes[1]))
            ops.append(twin)
        elif op == 'damage':
            ops.append(('damage', draw(st.integers(0, 3)), draw(st.sampled_from(['cut', 'cut', 'empty', 'garbage', 'remove', 'directory', 'all'])), draw(st.integers(0, 99))))
        elif op == 'reopen':
            ops.append(('reopen',))
        elif op == 'folder':
            ops.append(('folder', draw(st.sampled_from(['remove', 'file']))))
        else:
            if draw(st.integers(0, 3)):
                s, table, o = draw(st.sampled_from(about))
            else:
                s, table, o = draw(st.sampled_from(pool)), draw(st.sampled_from(PREDICATES)), draw(st.sampled_from(pool))
            values = [None if draw(st.integers(0, 1)) else s[1], None if draw(st.integers(0, 1)) else o[1]]
            columns = [s[0], o[0]]
            for i in range(2):
                if values[i] is None and draw(st.integers(0, 3)) == 0:
                    columns[i] = draw(st.sampled_from(['id', 'text']))
            ops.append(('select', table, columns, values))
            if op == 'fault':
                ops.insert(len(ops) - 1, ('fault', draw(st.sampled_from(FAULTS))))
                if draw(st.booleans()):
                    ops.append(ops[-1])
    wikidata = asked == "en" and draw(st.booleans())
    return dict(triples=triples, ops=ops, lang=asked, wikidata=wikidata, cache=draw(st.sampled_from([True, True, True, False])),
                headers=draw(st.sampled_from([{}, {"User-Agent": "x"}])))


# ---------------------------------------------------------------- the stand-in for the network

class Endpoint:
    """answers queries sent through the requests module"""
    def __init__(self, stores):
        self.stores = stores            # url -> triples
        self.requests = []
        self.problems = []
        self.fault = None

    def install(self):
        endpoint = self
        module = types.ModuleType("requests")
        exceptions = types.ModuleType("requests.exceptions")

        class RequestException(IOError):
            pass

        class Timeout(RequestException):
            pass

        class ConnectionError_(RequestException):
            pass

        class HTTPError(RequestException):
            pass

        class JSONDecodeError(ValueError, RequestException):
            pass
        for name, c in (("RequestException", RequestException), ("Timeout", Timeout), ("ConnectionError", ConnectionError_), ("HTTPError", HTTPError),
                        ("JSONDecodeError", JSONDecodeError)):
            setattr(exceptions, name, c)
            setattr(module, name, c)

        class Response:
            def __init__(self, status, text):
                self.status_code, self.text = status, text
                self.ok = status < 400
                self.content = text.encode()
                self.headers = {}

            def json(self):
                try:
                    return json.loads(self.text)
                except ValueError as e:
                    raise JSONDecodeError(str(e))

            def raise_for_status(self):
                if not self.ok:
                    raise HTTPError(str(self.status_code))

        def get(url, params=None, headers=None, **_):
            return endpoint.get(url, params or {}, headers, Response, Timeout)
        module.get = get
        module.exceptions = exceptions
        sys.modules["requests"] = module
        sys.modules["requests.exceptions"] = exceptions

    def get(self, url, params, headers, Response, Timeout):
        self.requests.append((url, params, headers))
        fault, self.fault = self.fault, None
        if fault == 'timeout':
            raise Timeout("no answer")
        if fault == 'broken json':
            return Response(200, '{"results": {"bindings": [')
        if fault == 'no results':
            return Response(200, '{"error": "busy"}')
        if isinstance(fault, tuple):
            return Response(fault[1], '{"head": {"vars": []}, "results": {"bindings": []}}')
        if fault:
            return Response(fault, "<html>error</html>")
        try:
            parsed = parse_query(params['query'])
        except BadQuery as e:
            self.problems.append(str(e))
            return Response(400, "malformed: " + str(e))
        if params.get('format') != 'json' or url not in self.stores:
            self.problems.append("the request does not ask the endpoint for JSON")
        bindings = []
        for solution in answer(self.stores[url], parsed):
            b = {}
            for name, node in solution.items():
                b[name] = {'type': 'uri' if node[0] == 'iri' else 'literal', 'value': text_of(node)}
                if node[0] == 'lit' and node[2]:
                    b[name]['xml:lang'] = node[2]
            bindings.append(b)
        return Response(200, json.dumps({'head': {'vars': []}, 'results': {'bindings': bindings}}))


def image(rows):
    return sorted(tuple((type(v).__name__, repr(v)) for v in r) for r in rows)


def damage(folder, op):
    """damages cache entries; returns whether something was there"""
    names = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    if not names:
        return False
    picked = names if op[2] == 'all' else [names[op[1] % len(names)]]
    for name in picked:
        path = os.path.join(folder, name)
        if os.path.isdir(path):
            continue
        if op[2] == 'remove':
            os.remove(path)
        elif op[2] == 'directory':
            os.remove(path)
            os.mkdir(path)
        elif op[2] == 'empty':
            open(path, "wb").close()
        elif op[2] == 'garbage':
            with open(path, "wb") as f:
                f.write([b"garbage", b"\x80\x05garbage", b"\x00" * 40, b"]q\x00(", b"<html>", b"cno_such_module\nthing\n."][op[3] % 6])
        else:
            with open(path, "rb") as f:
                data = f.read()
            with open(path, "wb") as f:
                f.write(data[:op[3] * len(data) // 100])
    return True


URL = "http://endpoint.test/sparql"
WIKIDATA = "https://query.wikidata.org/sparql"


def check(case, rec):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.WikidataDataSource import WikidataDataSource
    endpoint = Endpoint({WIKIDATA if case['wikidata'] else URL: case['triples']})
    endpoint.install()
    base = tempfile.mkdtemp(prefix="verif-sparql-")
    try:
        folder = os.path.join(base, "cache")
        os.mkdir(folder)

        def make():
            if case['wikidata']:
                return WikidataDataSource(result_cache_path=folder if case['cache'] else None)
            return SparqlDataSource(URL, result_cache_path=folder if case['cache'] else None, headers=dict(case['headers']), lang=case['lang'])
        source = make()
        known = {}              # selects with a good entry in the cache
        usable = case['cache']
        eventful = False
        for op in case['ops']:
            if op[0] == 'reopen':
                source = make()
            elif op[0] == 'fault':
                endpoint.fault = op[1]
            elif op[0] == 'folder':
                if os.path.isdir(folder):
                    shutil.rmtree(folder)
                if op[1] == 'file' and not os.path.exists(folder):
                    open(folder, "w").close()
                known, usable = {}, False
                rec.label("cache folder " + op[1])
            elif op[0] == 'damage':
                if damage(folder, op):
                    known = {}
                    eventful = True
                    rec.label("damage " + op[2])
                # a directory in the place of an entry cannot be replaced: such a select is never cached again
                if op[2] == 'directory':
                    usable = False
            else:
                _, table, columns, values = op
                key = repr(op)
                wanted = expected_rows(case['triples'], table, columns, values, case['lang'])
                count, fault = len(endpoint.requests), endpoint.fault
                raised, found = None, None
                try:
                    found = source.select(table, list(columns), list(values))
                except Exception as e:
                    raised = e
                sent = endpoint.requests[count:]
                expect(not endpoint.problems, "the query is not well-formed: " + "; ".join(endpoint.problems), select=op, request=sent)
                if not sent:
                    # answered from the cache
                    expect(endpoint.fault == fault, "harness")
                    expect(case['cache'] and raised is None, "a select was not sent to the endpoint", select=op, raised=raised)
                    eventful = True
                    rec.label("from cache")
                else:
                    expect(len(sent) == 1, "a select took more than one request", requests=sent)
                    expect(key not in known, "a repeated select was not answered from the cache", select=op)
                    if case['wikidata']:
                        # required by the policy of Wikidata
                        expect((sent[0][2] or {}).get("User-Agent"), "no User-Agent was sent to Wikidata", sent=sent[0][2])
                    else:
                        expect({k: (sent[0][2] or {}).get(k) for k in case['headers']} == case['headers'], "the headers were not sent", sent=sent[0][2])
                    rec.label("Wikidata" if case['wikidata'] else "SPARQL")
                if sent and fault:
                    expect(raised is not None, "a failed request did not raise an error", fault=fault, returned=found)
                    eventful = True
                    rec.label(f"fault {fault if isinstance(fault, str) else 'status'}")
                    continue
                expect(raised is None, f"a select failed: {raised!r}", select=op, request=sent)
                expect(isinstance(found, list) and image(found) == image(wanted), "a select does not return the endpoint's answers", select=op,
                       found=found, expected=wanted, cached=not sent, query=[s[1].get('query') for s in sent])
                if usable:
                    known[key] = True
                hostile = any(isinstance(v, str) and any(c in v for c in "'\\\n\r") for v, c in zip(values, columns) if c == 'text')
                rec.label("answers" if wanted else "no answers", *(["text to escape"] if hostile else []))
                rec.interesting(wanted and (eventful or hostile))
    finally:
        shutil.rmtree(base)
        sys.modules.pop("requests", None)
        sys.modules.pop("requests.exceptions", None)


# ---------------------------------------------------------------- two sources on one cache folder

@st.composite
def shared_cases(draw):
    pool = draw(st.lists(terms(LANGS), min_size=2, max_size=4))
    stores = []
    for _ in range(2):
        triples = []
        for _ in range(draw(st.integers(1, 4))):
            s, o = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
            triples.append((node_of(s[1], s[0], draw(st.sampled_from(LANGS[:2]))), PREDICATES[0], node_of(o[1], o[0], draw(st.sampled_from(LANGS[:2])))))
        stores.append([t for i, t in enumerate(triples) if t not in triples[:i]])
    sources = draw(st.sampled_from([[(0, "en"), (0, "en")], [(0, "en"), (0, "nl")], [(0, "en"), (1, "en")], [(0, "nl"), (1, "en")]]))
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        s, o = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
        ops.append((draw(st.integers(0, 1)), [s[0], o[0]], [None if draw(st.integers(0, 2)) else s[1], None if draw(st.integers(0, 2)) else o[1]]))
        if draw(st.booleans()):
            ops.append((1 - ops[-1][0],) + ops[-1][1:])
    return dict(stores=stores, sources=sources, folders=draw(st.booleans()), ops=ops)


def check_shared(case, rec):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    urls = [URL, "http://other.test/sparql"]
    endpoint = Endpoint(dict(zip(urls, case['stores'])))
    endpoint.install()
    base = tempfile.mkdtemp(prefix="verif-sparql-")
    listed = None
    try:
        sources = []
        for n, (store, lang) in enumerate(case['sources']):
            folder = os.path.join(base, f"cache{n if case['folders'] else 0}")
            os.makedirs(folder, exist_ok=True)
            sources.append(SparqlDataSource(urls[store], result_cache_path=folder, lang=lang))
        first = {}
        for n, columns, values in case['ops']:
            store, lang = case['sources'][n]
            wanted = expected_rows(case['stores'][store], PREDICATES[0], columns, values, lang)
            found = sources[n].select(PREDICATES[0], list(columns), list(values))
            expect(not endpoint.problems, "the query is not well-formed", problems=endpoint.problems)
            key = repr((columns, values))
            owner = first.setdefault(key, n)
            other_store, other_lang = case['sources'][owner]
            others = expected_rows(case['stores'][other_store], PREDICATES[0], columns, values, other_lang)
            if image(found) != image(wanted):
                if not case['folders'] and owner != n and image(found) == image(others):
                    # the answer that the other source stored for this very select
                    listed = "C19-shared-cache-folder"
                    continue
                fail("a select does not return the endpoint's answers", source=case['sources'][n], columns=columns, values=values, found=found, expected=wanted)
            rec.label("two folders" if case['folders'] else "one folder")
            rec.interesting(wanted and owner != n and image(others) != image(wanted))
    finally:
        shutil.rmtree(base)
        sys.modules.pop("requests", None)
        sys.modules.pop("requests.exceptions", None)
    if listed:
        raise Known(listed)


PARTS = [Part("histories", cases, check, quick=6000, thorough=150000),
         Part("shared", shared_cases, check_shared, quick=1500, thorough=30000)]
