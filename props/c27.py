"""C27: what cannot be carried out is refused."""
import copy

from hypothesis import strategies as st

from vlib.case import expect, fail
from vlib.lang import from_repo, to_repo
from vlib.refsolver import Ref
from vlib.runner import Part
from vlib.world import keyed

RULE = ("Part `queries`: random worlds and queries in which one atom cannot be carried out (unknown predicate, a relation whose results are not "
        "rows or have another width, a body or query that is not a list of atoms, comparisons and products of unbound variables, `store` "
        "of something else than atoms or of an unknown predicate, a rule whose head is not an atom, a counted iterator next to another "
        "relation), at any depth of quantifiers, aggregates, disjunctions and rules, and the same query with the mistake corrected. Part `definitions`: "
        "relation names, declared sizes, grammar rules without syntax or meaning, meanings that are not lists, sources that cannot write. The "
        "mistake must raise (naming the culprit where it has a name), leave nothing behind, and the corrected twin must work. Non-trivial: the mistake "
        "was met below the top of the query, or in a part of the dialogue that other sentences do not use.")
ASSUMPTIONS = ["a mistake that is never evaluated is no error"]

ENTITIES = ["a", "b", "c"]
WRAPS = ['not', 'none', 'scoped', 'count', 'find_all', 'find_one', 'sum', 'det_equals', 'det_greater_than', 'all', 'disjunction', 'second', 'rule', 'percentage', 'arg_max', 'reified']
KINDS = ['unknown', 'unknown', 'rows', 'rows', 'width', 'width', 'not list', 'iterator', 'equals', 'greater_than', 'less_than', 'multiply',
         'store value', 'store unknown', 'head', 'nothing']
ROWS = {'tuple': (("a",), ("b",)), 'text': ("a", "b"), 'number': (1, 2), 'none': (None,), 'dict': ({"c0": "a"},), 'set': (frozenset(["a"]),)}


@st.composite
def cases(draw):
    facts = {'p': draw(st.lists(st.sampled_from(ENTITIES), min_size=1, max_size=3, unique=True)),
             'age': [(e, draw(st.sampled_from([0, 1, 2, 2.5]))) for e in ENTITIES]}
    kind = draw(st.sampled_from(KINDS))
    name = draw(st.sampled_from(['lost', 'Lost', 'p2', 'pp', 'equal', 'is_not', 'x_1', 'stores', '_', 'P']))
    case = dict(facts=facts, kind=kind, name=name, wraps=[], before=[], after=[])
    case['terms'] = draw(st.lists(st.sampled_from(['?Q1', '?Q2', 'a', '?B0', 1, 0, '']), max_size=3))
    if kind == 'rows':
        case['rows'] = draw(st.sampled_from(sorted(ROWS)))
        case['good'], case['turn'] = draw(st.integers(0, 2)), draw(st.booleans())
    if kind == 'width':
        case['arity'], case['width'] = draw(st.sampled_from([(1, 0), (1, 2), (2, 1), (2, 3), (3, 1), (0, 1), (2, 0)]))
        case['count'] = draw(st.integers(1, 3))
        case['good'], case['turn'] = draw(st.integers(0, 2)), draw(st.booleans())
    if kind == 'not list':
        case['value'] = draw(st.sampled_from([('p', '?X'), ('p', 'a'), "p", None, 5, {'p': 1}, ()]))
    if kind in ('equals', 'greater_than', 'less_than', 'multiply'):
        case['bound'] = draw(st.sampled_from([[], [], [0], [1]] if kind != 'equals' else [[]]))
    if kind == 'store value':
        case['value'] = draw(st.sampled_from([('remembered', 'a'), "remembered", 5]))
    if kind == 'store unknown':
        case['first'] = draw(st.booleans())
    if kind == 'head':
        case['value'] = draw(st.sampled_from([[('remembered', 'a')], "remembered", [], 'a', 1]))
    case['wraps'] = draw(st.lists(st.sampled_from(WRAPS), max_size=3))
    case['before'] = draw(st.lists(st.sampled_from(['p', 'age', 'equals', 'scoped']), max_size=2))
    case['after'] = draw(st.lists(st.sampled_from(['p', 'not']), max_size=1))
    case['one'] = draw(st.integers(0, 4)) == 4
    case['again'] = draw(st.booleans())
    return case


def culprit(case, good):
    """an atom that cannot be carried out; and the same without the mistake"""
    kind, name = case['kind'], case['name']
    if kind in ('unknown', 'nothing'):
        return ('p', '?Q1') if good or kind == 'nothing' else (name,) + tuple(case['terms'])
    if kind == 'rows':
        return (name, '?Q1')
    if kind == 'width':
        return (name,) + tuple(f'?Q{i}' for i in range(case['arity']))
    if kind == 'not list':
        return ('scoped', [('p', '?Q1')] if good else case['value'])
    if kind == 'iterator':
        return (name, '?Q1')
    if kind in ('equals', 'greater_than', 'less_than', 'multiply'):
        terms = [1 if good or i in case['bound'] else f'?Q{i}' for i in range(2)]
        if kind == 'greater_than' and good:
            terms[0] = 2
        if kind == 'less_than' and good:
            terms[1] = 2
        return (kind,) + tuple(terms) + (('?Q3',) if kind == 'multiply' else ())
    if kind == 'store value':
        return ('store', [('remembered', 'a')] if good else case['value'])
    if kind == 'store unknown':
        atoms = [('remembered', 'a'), ('remembered', 'b') if good else (name,) + tuple(case['terms'])]
        return ('store', atoms if case['first'] else [atoms[1]])
    if kind == 'head':
        return ('learn_rule', ('learned', '?Q1') if good else case['value'], [('p', '?Q1')])
    raise NotImplementedError(kind)


def wrap(atom, wraps, n=0):
    """puts the atom in a body that is certainly evaluated"""
    out = [atom]
    for depth, w in enumerate(wraps):
        v, r = f'?V{depth}', f'?R{depth}'
        if w in ('not', 'none', 'scoped'):
            out = [(w, out)]
        elif w == 'count':
            out = [('count', r, out)]
        elif w == 'sum':
            out = [('sum', r, v, [('age', f'?S{depth}', v)] + out)]
        elif w == 'find_all':
            out = [('find_all', v, [('p', v)] + out, r)]
        elif w == 'find_one':
            out = [('find_one', v, [('p', v)] + out, r)]
        elif w in ('det_equals', 'det_greater_than'):
            out = [(w, out, 1)]
        elif w == 'all':
            out = [('all', v, [('p', v)], out)]
        elif w == 'disjunction':
            out = [('$disjunction', [out, [('p', v)]])]
        elif w == 'second':
            out = [('$disjunction', [[('p', 'nobody')], out])]
        elif w == 'percentage':
            out = [('percentage', r, out, [('p', v)])]
        elif w == 'arg_max':
            out = [('arg_max', v, f'?W{depth}', [('age', v, f'?W{depth}')] + out)]
        elif w == 'rule':
            out = [('RULE', out)]
        elif w == 'reified':
            out = [('scoped', [('p', v), ('scoped', out)])]
    return out


def check(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.ResultIterator import ResultIterator
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule
    kind, name = case['kind'], case['name']
    remembered = []

    def build(good):
        del remembered[:]
        rules = []

        class World(SomeModule):
            def __init__(self):
                super().__init__()
                self.add_relation(Relation('p', arguments=['e'], query_function=lambda v, c: [[e] for e in case['facts']['p'] if v[0] in (None, e)]))
                self.add_relation(Relation('age', arguments=['e', 'n'],
                                           query_function=lambda v, c: [list(r) for r in case['facts']['age'] if v[0] in (None, r[0]) and v[1] in (None, r[1])]))
                self.add_relation(Relation('remembered', arguments=['e'], query_function=lambda v, c: [[e] for e in remembered if v[0] in (None, e)],
                                           write_function=lambda v, c: remembered.append(v[0])))
                if kind == 'rows':
                    # some of the rows may be good
                    fine = [[f"g{n}"] for n in range(case['good'])]
                    bad = [copy.copy(r) for r in ROWS[case['rows']]]
                    bad = bad + fine if case['turn'] else fine + bad
                    self.add_relation(Relation(name, arguments=['e'], query_function=lambda v, c: [["a"], ["b"]] if good else list(bad)))
                if kind == 'width':
                    width = case['arity'] if good else case['width']
                    self.add_relation(Relation(name, arguments=[f'a{i}' for i in range(case['arity'])],
                                               query_function=lambda v, c: mixed(width)))
                if kind == 'iterator':
                    self.add_relation(Relation(name, arguments=['e'], query_function=lambda v, c: [["a"]] if good else ResultIterator(["x"], 3)))

        def mixed(width):
            rows = [[f"v{n}{i}" for i in range(width)] for n in range(case['count'])]
            fine = [[f"g{n}{i}" for i in range(case['arity'])] for n in range(case['good'])]
            return rows + fine if case['turn'] else fine + rows

        class Other(SomeModule):
            def __init__(self):
                super().__init__()
                if kind == 'iterator':
                    self.add_relation(Relation(name, arguments=['e'], query_function=lambda v, c: [["b"]]))

        inference = InferenceModule()

        def place(atoms):
            out = []
            for a in atoms:
                if isinstance(a, tuple) and a[0] == 'RULE':
                    head = f'rule{len(rules)}'
                    rules.append(head)
                    inference.insert_rule(InferenceRule((head,), to_repo(place(a[1]))))
                    out.append((head,))
                elif isinstance(a, tuple):
                    out.append((a[0],) + tuple(place_arg(x) for x in a[1:]))
                else:
                    out.append(a)
            return out

        def place_arg(x):
            if isinstance(x, list) and all(isinstance(a, tuple) for a in x):
                return place(x)
            if isinstance(x, list) and all(isinstance(a, list) for a in x):
                return [place(a) for a in x]
            return x
        before = []
        for n, b in enumerate(case['before']):
            before.append({'p': ('p', f'?B{n}'), 'age': ('age', f'?B{n}', f'?N{n}'), 'equals': ('equals', 1, 1), 'scoped': ('scoped', [('p', '?B9')])}[b])
        after = [{'p': ('p', '?A1'), 'not': ('not', [('p', 'nobody')])}[b] for b in case['after']]
        query = place(before + wrap(culprit(case, good), case['wraps']) + after)
        modules = [World(), Other(), inference]
        return Solver(Model(modules)), query

    named = kind in ('unknown', 'rows', 'width', 'iterator', 'store unknown')
    solver, query = build(False)
    atoms = to_repo(query)
    for attempt in range(2 if case['again'] else 1):
        try:
            result = solver.solve1(atoms) if case['one'] else solver.solve(atoms)
        except RecursionError:
            raise
        except Exception as e:
            expect(kind != 'nothing', "a query without mistakes is refused", query=query, error=repr(e))
            if named:
                expect(name in str(e), "the error does not say what is wrong", kind=kind, culprit=name, error=repr(e), query=query)
            # and nothing is left behind
            if kind in ('store value', 'head'):
                expect(remembered == [], "something was stored all the same", remembered=remembered)
                try:
                    left = solver.solve(to_repo([('learned', '?X')]))
                except Exception:
                    left = []
                expect(left == [], "a rule was learned all the same", left=left)
            found = solver.solve(to_repo([('p', '?X'), ('age', '?X', '?N')]))
            wanted = [{'X': e, 'N': n} for e in case['facts']['p'] for x, n in case['facts']['age'] if x == e]
            expect(keyed(found) == keyed(wanted), "later answers are wrong", found=found, expected=wanted)
        else:
            expect(kind == 'nothing', "what cannot be carried out was not refused", kind=kind, culprit=culprit(case, False), query=query, result=result)
        expect(from_repo(atoms) == query, "solving changed the query", before=query, after=from_repo(atoms))
    # without the mistake
    solver, query = build(True)
    try:
        solver.solve(to_repo(query))
    except Exception as e:
        fail("a query without mistakes is refused", kind=kind, query=query, error=repr(e))
    if kind == 'store value':
        expect(set(remembered) == {'a'}, "what was to be stored was not stored", remembered=remembered)
    rec.label(kind, f"depth {len(case['wraps'])}", *case['wraps'])
    rec.interesting(kind != 'nothing' and len(case['wraps']) > 0)


# ---------------------------------------------------------------- definitions

GOOD_NAMES = ["p", "_", "has_child", "P2", "2", "é", "日本", "a_b_c", "X"]
BAD_NAMES = ["", " ", "a b", "a-b", "p(", " p", "p ", "p\n", "a.b", "'", "p(E1)", "a,b", "?", "\t", "é!", "a/b"]


@st.composite
def definitions(draw):
    kind = draw(st.sampled_from(['name', 'sizes', 'sizes', 'syn', 'sem', 'sem', 'meaning', 'source']))
    case = dict(kind=kind, good=draw(st.booleans()))
    if kind == 'name':
        base = draw(st.one_of(st.sampled_from(GOOD_NAMES if case['good'] else BAD_NAMES), st.text(max_size=4)))
        case['name'] = base
    elif kind == 'sizes':
        arity = draw(st.integers(0, 3))
        case['arity'] = arity
        case['sizes'] = [draw(st.sampled_from([0, 1, 10])) for _ in range(arity if case['good'] else draw(st.sampled_from([n for n in range(5) if n != arity])))]
        case['size'] = draw(st.sampled_from([0, 1, 100]))
        case['others'] = draw(st.lists(st.sampled_from(['p', 'q']), min_size=1, max_size=3))
        case['place'] = draw(st.integers(0, 3))
        case['nested'] = draw(st.booleans())
    elif kind == 'syn':
        case['write'] = draw(st.booleans())
        case['number'] = draw(st.integers(0, 3))
    elif kind in ('sem', 'meaning'):
        case['rules'] = draw(st.integers(1, 4))
        case['bad'] = draw(st.integers(0, case['rules'] - 1))
        case['texts'] = draw(st.lists(st.integers(0, case['rules'] - 1), min_size=1, max_size=4))
        case['value'] = draw(st.sampled_from([('p', '?E1'), "p", None, 5, {}]))
    else:
        case['source'], case['call'] = draw(st.sampled_from([('sparql', 'insert'), ('sparql', 'clear'), ('wikidata', 'insert'), ('wikidata', 'clear'),
                                                             ('sqlite', 'clear'), ('own', 'insert'), ('own', 'clear')]))
    return case


def refused(call):
    try:
        call()
    except RecursionError:
        raise
    except Exception as e:
        return e
    return None


def check_definition(case, rec):
    import re as regexp
    kind, good = case['kind'], case['good']
    rec.label(kind + (" good" if good else " bad"))
    if kind == 'name':
        from richard.entity.Relation import Relation
        good = regexp.fullmatch(r"\w+", case['name']) is not None
        e = refused(lambda: Relation(case['name'], query_function=lambda v, c: []))
        expect((e is None) == good, "a relation name is (not) refused", name=case['name'], error=repr(e))
        if not good:
            expect(case['name'] in str(e), "the error does not say what is wrong", name=case['name'], error=repr(e))
            rec.interesting()
    elif kind == 'sizes':
        from richard.core.Model import Model
        from richard.entity.Relation import Relation
        from richard.interface.SomeModule import SomeModule
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer

        class World(SomeModule):
            def __init__(self):
                super().__init__()
                for n in 'pq':
                    self.add_relation(Relation(n, query_function=lambda v, c: [], relation_size=10, argument_sizes=[10]))
                self.add_relation(Relation('sized', query_function=lambda v, c: [], relation_size=case['size'], argument_sizes=list(case['sizes'])))
        atoms = [(n, '?E1') for n in case['others']]
        atoms.insert(case['place'] % (len(atoms) + 1), ('sized',) + tuple(f'?E{i + 1}' for i in range(case['arity'])))
        if case['nested']:
            atoms = [('scoped', atoms), ('p', '?E1')]
        e = refused(lambda: BasicQueryOptimizer(Model([World()])).optimize(to_repo(atoms), ['E1']))
        expect((e is None) == good, "declared sizes are (not) refused", sizes=case['sizes'], atoms=atoms, error=repr(e))
        if not good:
            expect('sized' in str(e), "the error does not say what is wrong", error=repr(e))
            rec.interesting(case['place'] > 0 or case['nested'])
    elif kind == 'syn':
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        rules = [dict(syn=f"s(E1) -> 'w{i}'") for i in range(case['number'])]
        rules.append(dict(syn="s(E1) -> 'x'") if good else dict(sem=lambda: [], boost=1))
        parser = SimpleGrammarRulesParser()
        e = refused(lambda: (parser.parse_write_grammar if case['write'] else parser.parse_read_grammar)(rules))
        expect((e is None) == good, "a rule without 'syn' is (not) refused", rules=rules, error=repr(e))
        rec.interesting(not good and case['number'] > 0)
    elif kind in ('sem', 'meaning'):
        from richard.block.FindOne import FindOne
        from richard.core.Model import Model
        from richard.core.System import System
        from richard.entity.SentenceRequest import SentenceRequest
        from richard.processor.parser.BasicParser import BasicParser
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
        rules = [dict(syn="s(E1) -> np(E1)", sem=lambda np: np)]
        for i in range(case['rules']):
            rule = dict(syn=f"np(E1) -> 'w{i}'", sem=lambda i=i: [('equals', i, i)])
            if i == case['bad'] and not good:
                if kind == 'sem':
                    del rule['sem']
                else:
                    rule['sem'] = lambda: to_repo(case['value'])
            rules.append(rule)
        model = Model([])
        parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(rules))
        composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model)) if kind == 'meaning' else SemanticComposer(parser)
        system = System(model=model, input_pipeline=[FindOne(parser), FindOne(composer)])
        for i in case['texts']:
            request = SentenceRequest(f"w{i}")
            e = refused(lambda: system.enter(request))
            wrong = i == case['bad'] and not good
            expect((e is not None) == wrong, "a sentence whose rule has no (good) meaning is (not) refused", text=f"w{i}", rule=case['bad'], error=repr(e))
            if wrong and kind == 'sem':
                expect("np" in str(e), "the error does not say which rule is wrong", error=repr(e))
            if not wrong:
                expect(request.get_current_product(composer).get_semantics_last_iteration() == [('equals', i, i)], "wrong meaning")
        rec.interesting(not good and case['bad'] in case['texts'] and case['rules'] > 1)
    else:
        import sqlite3
        from richard.data_source.SparqlDataSource import SparqlDataSource
        from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
        from richard.data_source.WikidataDataSource import WikidataDataSource
        from richard.interface.SomeDataSource import SomeDataSource

        class Own(SomeDataSource):
            def select(self, table, columns, values):
                return [["a"]]
        connection = sqlite3.connect(":memory:")
        connection.execute("CREATE TABLE t (a)")
        connection.execute("INSERT INTO t VALUES ('x')")
        source = {'sparql': lambda: SparqlDataSource("http://none.test/"), 'wikidata': WikidataDataSource, 'sqlite': lambda: Sqlite3DataSource(connection),
                  'own': Own}[case['source']]()
        e = refused(lambda: source.clear() if case['call'] == 'clear' else source.insert("t", ["a"], ["b"]))
        expect(e is not None, "a source that cannot do so does not refuse", source=case['source'], call=case['call'])
        expect(connection.execute("SELECT a FROM t").fetchall() == [('x',)], "the data changed")
        if case['source'] == 'own':
            expect(source.select_column("t", ["a"], [None]) == ["a"], "select_column")
        rec.interesting()


PARTS = [Part("queries", cases, check, quick=6000, thorough=120000),
         Part("definitions", definitions, check_definition, quick=4000, thorough=40000)]
