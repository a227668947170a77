"""C14: executing a reading stores its facts, runs its commands, then answers."""
from hypothesis import strategies as st

from props.c05 import cases as composition_cases, compose, library_grammar
from vlib.case import expect, fail
from vlib.grammar import Reference, make_simple_grammar
from vlib.lang import from_repo, to_repo
from vlib.refsolver import Ref, bindings_equal
from vlib.runner import Part
from vlib.semantics import Renaming, RefVar
from vlib.world import distinct

RULE = ("Part `events`: random grammars whose rules carry semantics, dialog facts and executable atoms; all relations record their "
        "calls, and the record of every executed reading has to match (up to renaming) facts, commands and meaning of the "
        "reference composition, each once and in that order, for several sentences in a row. Part `readings`: ambiguous "
        "sentences with labelled facts and commands on every rule, run through pipelines of FindOne, FindAll and TryFirst with "
        "filters that reject readings before or after their execution, over facts that pile up during the dialogue. "
        "Non-trivial: at least one fact and one command, from at least two rule applications / at least two readings, of which "
        "one is executed.")
ASSUMPTIONS = ["all commands of a sentence but the last succeed exactly once (executable atoms are solved as one conjunction)"]


@st.composite
def event_cases(draw):
    # a sentence may consist of commands and facts only
    return dict(draw(composition_cases()), mute=draw(st.integers(0, 5)) == 5, last=draw(st.sampled_from([1, 1, 0, 2])))


def mute(grammar):
    for g in grammar:
        number = g['sem'].number
        g['sem'] = lambda *children: []
        g['sem'].number = number
    return grammar


def check_events(case, rec):
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.entity.Variable import Variable
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

    events, given = [], []

    class Recorder(Model):
        def find_relations(self, predicate):
            def write(values, context):
                events.append(('write', (predicate,) + tuple(values)))

            def query(values, context):
                events.append(('solve', (predicate,) + tuple(context.arguments)))
                given.append(list(values))
                # an unbound variable gets a value
                row = ["value of " + a.name if isinstance(a, Variable) and v is None else None for a, v in zip(context.arguments, values)]
                if len(given) == len(request.get_current_product(composer).executable):
                    # the last command
                    return [row, [v and v + " too" for v in row]][:case['last']]
                return [row]
            return [Relation(predicate, query_function=query, write_function=write)]

    rules = case['rules']
    grammar = SimpleGrammarRulesParser().parse_read_grammar(mute(library_grammar(rules)) if case['mute'] else library_grammar(rules))
    model = Recorder([])
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(parser), TryFirst(composer), TryFirst(executor)])
    for text in case['texts']:
        if Reference(rules, text).total() > 20:
            rec.label("skipped: too ambiguous")
            continue
        del events[:], given[:]
        request = SentenceRequest(text)
        answers = system.enter(request)
        tree = request.get_current_product(parser).parse_tree
        root = rules[tree.rule.sem.number]
        log = []
        semantics, inferences, executable = compose(tree, rules, [RefVar(v) for v in root['ant'][1]], log)
        if case['mute']:
            semantics = []
        expected = [('write', a) for a in inferences] + [('solve', a) for a in executable] + [('solve', a) for a in semantics]
        problem = None
        if [e[0] for e in expected] != [e[0] for e in events]:
            problem = "different events"
        else:
            problem = Renaming().match(expected, events)
        if problem:
            fail("executing a reading did not store its facts, run its commands and solve its meaning, each once: " + problem,
                 text=text, syntax=[g['syn'] for g in make_simple_grammar(rules)], events=from_repo(events), expected=expected)
        # the commands are one conjunction, and so is the meaning: a value that was found is passed on
        solved = [e[1][1:] for e in events if e[0] == 'solve']
        passed = False
        for atoms, values in ((solved[:len(executable)], given[:len(executable)]), (solved[len(executable):], given[len(executable):])):
            known = set()
            for arguments, found in zip(atoms, values):
                for a, v in zip(arguments, found):
                    if isinstance(a, Variable):
                        expect(v == ("value of " + a.name if a.name in known else None), "an atom was called with a value that its variable does not have",
                               atom=from_repo(arguments), values=found, known=sorted(known), events=from_repo(events))
                        passed = passed or a.name in known
                known |= {a.name for a in arguments if isinstance(a, Variable)}
        if passed:
            rec.label("a value is passed on")
        # the answer is that of the meaning alone
        wanted = {a.name: "value of " + a.name for atom in solved[len(executable):] for a in atom if isinstance(a, Variable)}
        expect(answers == [wanted], "the answer is not that of the meaning", answers=answers, expected=[wanted], events=from_repo(events))
        if executable and case['last'] != 1:
            rec.label("the last command has " + ("no" if case['last'] == 0 else "several") + " solutions")
        if executable and not wanted:
            rec.label("commands and a meaning without variables")
        for name, part in (("facts", inferences), ("commands", executable)):
            rec.label(f"{min(len(part), 3)} {name}")
        rec.interesting(inferences and executable and len(log) > 1)


# ---------------------------------------------------------------- which readings are executed

PREDICATES = {'fact': 2, 'tag': 2}


@st.composite
def reading_cases(draw):
    labels = iter("abcdefghijklmnopqrstuvwxyz")

    def parts(variables):
        out = {}
        if draw(st.integers(0, 2)):
            out['dialog'] = [draw(st.sampled_from([('fact', '!' + draw(st.sampled_from(variables)), draw(st.sampled_from([1, 2]))),
                                                   ('tag', draw(st.sampled_from([1, 2])), next(labels))]))
                             for _ in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 2)):
            out['exec'] = [('do', next(labels), draw(st.sampled_from([1, 2]))) for _ in range(draw(st.integers(1, 2)))]
        return out

    def atoms(variables):
        return [draw(st.sampled_from([('fact', '?' + draw(st.sampled_from(variables)), draw(st.sampled_from([1, 2, '?N']))),
                                      ('tag', draw(st.sampled_from([1, 2, '?N'])), '?T'),
                                      ('did', '?L', draw(st.sampled_from([1, 2, '?N'])))]))
                for _ in range(draw(st.sampled_from([0, 1, 1, 2])))]

    rules = []

    def rule(syn, variables, kids):
        rules.append(dict(syn=syn, sem=atoms(variables) if draw(st.integers(0, 2)) == 0 else [], kids=kids, **parts(variables)))

    rule("s(E1) -> 'go' np(E1)", ['E1'], 1)
    if draw(st.booleans()):
        rule("s(E1) -> 'go' np(E1) 'p' np(E2)", ['E1', 'E2'], 2)
    rule("np(E1) -> np(E1) 'p' np(E2)", ['E1', 'E2'], 2)
    if draw(st.booleans()):
        rule("np(E1) -> 'x' 'p' np(E2)", ['E1', 'E2'], 1)
    rule("np(E1) -> 'x'", ['E1'], 0)
    if draw(st.booleans()):
        rule("np(E1) -> /\\w/", ['E1'], 0)

    def sentence():
        return "go " + " p ".join([draw(st.sampled_from("xxy" if "\\w" in rules[-1]['syn'] else "x")) for _ in range(draw(st.sampled_from([1, 2, 3, 3, 4])))])

    blocks = st.sampled_from(['FindOne', 'FindAll', 'TryFirst'])
    plan = []
    for _ in range(draw(st.integers(1, 4))):
        plan.append(dict(text=sentence(), before=draw(st.lists(st.booleans(), max_size=6)), after=draw(st.lists(st.booleans(), max_size=6))))
    return dict(rules=rules, blocks=draw(st.lists(blocks, min_size=5, max_size=5)), optimizer=draw(st.booleans()),
                two=draw(st.booleans()), plan=plan)


def make_rules(rules):
    from vlib.semantics import function
    out = []
    for r in rules:
        def sem(*children, r=r):
            result = []
            for c in children:
                if isinstance(c, list):
                    result.extend(c)
            return result + to_repo(r['sem'])
        g = dict(syn=r['syn'], sem=sem)
        for part in ('dialog', 'exec'):
            if part in r:
                fn = (lambda atoms: lambda *children: to_repo(atoms))(r[part])
                g[part] = fn if part == 'exec' else fn()
        out.append(g)
    return out


def declared(node, rules, by_rule):
    """labels of facts and commands a tree declares, children first"""
    facts, commands = [], []
    for child in node.children:
        if child.form == "":
            f, c = declared(child, rules, by_rule)
            facts += f
            commands += c
    r = rules[by_rule[id(node.rule.sem)]]
    return facts + r.get('dialog', []), commands + r.get('exec', [])


def meaning_size(node, rules, by_rule):
    """(number of atoms in the meaning, number of facts and commands)"""
    r = rules[by_rule[id(node.rule.sem)]]
    atoms, effects = len(r['sem']), len(r.get('dialog', [])) + len(r.get('exec', []))
    for child in node.children:
        if child.form == "":
            a, e = meaning_size(child, rules, by_rule)
            atoms += a
            effects += e
    return atoms, effects


def check_readings(case, rec):
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeModule import SomeModule
    from richard.interface.SomeProcessor import SomeProcessor
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

    class Store(SomeModule):
        def __init__(self, commands):
            super().__init__()
            self.rows = {'fact': [], 'tag': [], 'did': []}
            self.add_relation(Relation('fact', arguments=['e', 'n'], query_function=self.query, write_function=self.write))
            self.add_relation(Relation('tag', arguments=['n', 't'], query_function=self.query, write_function=self.write))
            if commands:
                self.add_relation(Relation('do', arguments=['l', 'n'], query_function=self.do))
                self.add_relation(Relation('did', arguments=['l', 'n'], query_function=self.query))

        def query(self, values, context):
            return [list(r) for r in self.rows[context.relation.predicate] if all(v is None or v == x for v, x in zip(values, r))]

        def write(self, values, context):
            self.rows[context.relation.predicate].append(tuple(values))

        def do(self, values, context):
            self.rows['did'].append(tuple(values))
            return [[None, None]]

    class Filter(SomeProcessor):
        """rejects the readings of its script"""
        def __init__(self, name, source):
            self.name, self.source, self.script, self.calls = name, source, [], 0

        def get_name(self):
            return self.name

        def process(self, request):
            n = self.calls
            self.calls += 1
            if n < len(self.script) and self.script[n]:
                return ProcessResult([], f"rejected by {self.name}", [n])
            return ProcessResult([request.get_current_product(self.source)], "")

    class Seen(SomeProcessor):
        """notes which readings are executed, and with which answers"""
        def get_name(self):
            return "seen"

        def process(self, request):
            seen.append((request.get_current_product(parser).parse_tree, request.get_current_product(composer),
                         request.get_current_product(executor), snapshot()))
            return ProcessResult([None], "")

    def snapshot():
        return [{k: list(v) for k, v in s.rows.items()} for s in stores]

    stores = [Store(True)] + ([Store(False)] if case['two'] else [])
    buffer = BasicOutputBuffer()
    model = Model(stores + [buffer])
    library = make_rules(case['rules'])
    by_rule = {id(g['sem']): n for n, g in enumerate(library)}
    grammar = SimpleGrammarRulesParser().parse_read_grammar(library)
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model) if case['optimizer'] else None)
    before = Filter("before", composer)
    executor = AtomExecutor(composer, model)
    after = Filter("after", executor)
    kinds = dict(FindOne=FindOne, FindAll=FindAll, TryFirst=TryFirst)
    names = case['blocks']
    pipeline = [kinds[names[0]](parser), kinds[names[1]](composer), kinds[names[2]](before), kinds[names[3]](executor), TryFirst(Seen()), kinds[names[4]](after)]
    system = System(model=model, input_pipeline=pipeline)

    for step in case['plan']:
        model.find_relations('output_type')
        buffer.clear()
        before.script, before.calls = step['before'], 0
        after.script, after.calls = step['after'], 0
        seen = []
        start = snapshot()
        request = SentenceRequest(step['text'])
        # an independent list of the readings, and the run through the pipeline
        trees = [p.parse_tree for p in BasicParser(grammar).process(SentenceRequest(step['text'])).products]
        expect(trees, "a sentence of the grammar was not parsed", text=step['text'])
        sizes = [meaning_size(t, case['rules'], by_rule) for t in trees]
        rows = max(len(r) for s in start for r in s.values()) + sum(s[1] for s in sizes)
        if rows ** max(s[0] for s in sizes) > 20000:
            rec.label("skipped: too many answers")
            continue
        # errors are stored as output of an unknown kind: the pipeline itself is run here, not System.enter
        result = pipeline[0].process(request)

        # which readings are executed
        expected, accepted, b, a = [], False, 0, 0
        for number in range(len(trees)):
            rejected = b < len(step['before']) and step['before'][b]
            b += 1
            if not rejected:
                expected.append(number)
                ok = not (a < len(step['after']) and step['after'][a])
                a += 1
                accepted = accepted or ok
                if ok and names[0] == 'FindOne':
                    break
            if names[0] == 'TryFirst':
                break
        expect((result.error_type == "") == accepted, "the outcome of the pipeline is wrong", result=result, expected=accepted)

        identity = [tree_id(t) for t in trees]
        executed = [identity.index(tree_id(s[0])) if tree_id(s[0]) in identity else None for s in seen]
        expect(executed == expected, "the wrong readings were executed", executed=executed, expected=expected, trees=identity)

        # effects, reading by reading
        state = start
        for tree, meaning, answer, after_state in seen:
            facts, commands = declared(tree, case['rules'], by_rule)
            for n, store in enumerate(after_state):
                for predicate in ('fact', 'tag'):
                    old, new = state[n][predicate], store[predicate]
                    expect(new[:len(old)] == old, "earlier facts changed", before=old, after=new)
                    added = [('!V' if predicate == 'fact' else r[0],) + (r[1],) for r in new[len(old):]]
                    wanted = [('!V' if predicate == 'fact' else f[1],) + (f[2],) for f in facts if f[0] == predicate]
                    expect(added == wanted, "executing a reading did not store exactly its facts, in order", predicate=predicate,
                           stored=new[len(old):], declared=wanted, tree=tree_id(tree))
            old, new = state[0]['did'], after_state[0]['did']
            expect(new == old + [c[1:] for c in commands], "executing a reading did not run exactly its commands, in order",
                   ran=new[len(old):], declared=commands, tree=tree_id(tree))
            # the answer is given by the facts and commands so far
            rows = {p: distinct_rows([r for s in after_state for r in s[p]]) for p in ('fact', 'tag', 'did')}
            wanted = Ref(rows).solve(from_repo(meaning.semantics_iterations["Semantics"] if not case['optimizer'] else list(meaning.semantics_iterations.values())[0]), {})
            found = answer.bindings
            if case['optimizer']:
                # variables that are not asked for may be kept inside a scope
                found, wanted = [distinct([{k: v for k, v in b.items() if k in meaning.return_variables} for b in x]) for x in (found, wanted)]
            expect(bindings_equal(distinct(found), wanted) and len(found) == len(wanted), "the answer is not that of the meaning over the facts stored so far",
                   meaning=from_repo(meaning.get_semantics_last_iteration()), answers=answer.bindings, expected=wanted, data=rows)
            state = after_state
        expect(snapshot() == state, "a reading that was not executed had an effect", before=state, after=snapshot())
        rec.label(f"{min(len(trees), 3)}{'+' if len(trees) > 2 else ''} readings", f"{min(len(seen), 3)} executed", "first block " + names[0])
        rec.interesting(len(trees) > 1 and len(seen) > 0 and state != start)


def distinct_rows(rows):
    return list(dict.fromkeys(rows))


def tree_id(node):
    if node.form != "":
        return node.form
    return (str(node.rule), tuple(tree_id(c) for c in node.children if c.form != " "))


PARTS = [Part("events", event_cases, check_events, quick=3000, thorough=80000),
         Part("readings", reading_cases, check_readings, quick=2500, thorough=60000)]
