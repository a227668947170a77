"""C11: what is learned in a dialogue is usable at once and never lost."""
import random

from hypothesis import strategies as st

from vlib.case import expect
from vlib.grammar import Reference, grammars, make_simple_grammar, sentences, tree_of
from vlib.lang import from_repo, is_var, subst, to_repo
from vlib.queries import Builder, ENTITIES, NUMBERS, worlds
from vlib.refsolver import Ref, bindings_equal
from vlib.runner import Part
from vlib.world import distinct

RULE = ("'history': random sequences of storing (directly and for every answer of a query), learning facts and rules, failing and "
        "raising questions, over a model with a SQLite memory, a second memory, a read-only module and one or two inference "
        "modules that share predicates; after every step a question is compared with an independent evaluator over everything "
        "learned so far. 'grammar': a random grammar of which only a part is known, the rest is learned between parses. "
        "'dialog': English sentences through a System that store facts, learn rules and words, and ask. 'memory': what is stored in the "
        "memory modules (dialog context, output buffer, one of an application) of two models, asked and cleared in any order, against lists. Non-trivial: an answer "
        "depends on at least two different things that were learned (history: the answer changed after learning).")
ASSUMPTIONS = ["stored atoms have no unbound variables", "no circular rules", "learned grammar rules are not duplicates"]

SIG = {"p": "e", "r": "ee", "age": "en", "q": "e", "t": "ee", "d1": "e", "d2": "ee", "d3": "e"}
# a rule for a predicate only uses predicates with a lower level
LEVEL = {"p": 0, "r": 0, "age": 0, "q": 1, "t": 2, "d1": 3, "d2": 4, "d3": 5}
# which modules know it: S sqlite memory, M in-memory, L read-only list
HOMES = {"p": "SL", "r": "SM", "age": "M", "q": "MS", "t": "L", "d1": "", "d2": "S", "d3": ""}
VALUES = {"e": ENTITIES + ["it's", "É", "%"], "n": NUMBERS}
NAMES = ['?X', '?Y', '?Z', '?A', '?B']


@st.composite
def ground(draw, name):
    return tuple([name] + [draw(st.sampled_from(VALUES[k][:3] if k == 'e' and draw(st.integers(0, 3)) else VALUES[k])) for k in SIG[name]])


@st.composite
def heads(draw, bound, kinds):
    terms = []
    for k in kinds:
        pool = sorted(v for v in bound if (v in NAMES) == (k == 'e') and v in NAMES + ['?N', '?M'])
        if pool and draw(st.integers(0, 4)):
            terms.append(draw(st.sampled_from(pool)))
        else:
            terms.append(draw(st.sampled_from(ENTITIES if k == 'e' else NUMBERS)))
    return tuple(terms)


@st.composite
def rule_for(draw, bound=()):
    name = draw(st.sampled_from(["q", "t", "d1", "d1", "d2", "d3"]))
    lower = {n: k for n, k in SIG.items() if LEVEL[n] < LEVEL[name]}
    if draw(st.integers(0, 4)) == 0:
        # a fact; its variables must be known
        return ('learn', (name,) + draw(heads(set(bound), SIG[name])), [])
    b = Builder(draw, ['not', 'scoped', 'greater_than', 'equals'], signature=lower, depth=draw(st.sampled_from([0, 0, 1])), evars=NAMES, nvars=['?N', '?M'])
    body, after = b.query((1, 2), set(bound))
    return ('learn', (name,) + draw(heads(after, SIG[name])), body)


@st.composite
def effects(draw, bound):
    """an atom that stores or learns, with variables that are bound"""
    if draw(st.booleans()):
        atoms = []
        for _ in range(draw(st.integers(1, 2))):
            name = draw(st.sampled_from(["p", "r", "age", "q", "d2", "t"]))
            atoms.append((name,) + draw(heads(set(bound), SIG[name])))
        return ('store', atoms)
    return draw(rule_for(bound))


@st.composite
def questions(draw, binding=()):
    b = Builder(draw, ['not', 'all', 'scoped'], signature=SIG, depth=1, evars=NAMES[:3], nvars=['?N'])
    atoms, _ = b.query((1, 2), set(binding))
    return atoms


@st.composite
def histories(draw):
    data = draw(worlds(signature={n: k for n, k in SIG.items() if 'L' in HOMES[n]}, max_rows=3))
    ops = []
    for _ in range(draw(st.sampled_from([2, 4, 6, 8]))):
        kind = draw(st.sampled_from(['do', 'do', 'do', 'do', 'each', 'each', 'raise', 'failing', 'again']))
        if kind == 'do':
            names = draw(st.sampled_from([[], [], ['X'], ['X', 'N'], ['A', 'Y']]))
            binding = {v: draw(st.sampled_from(ENTITIES if v != 'N' else NUMBERS)) for v in names}
            ops.append(dict(kind='do', prefix=[], binding=binding, effect=draw(effects(['?' + v for v in binding]))))
        elif kind in ('each', 'raise', 'failing'):
            b = Builder(draw, [], signature={n: SIG[n] for n in (["p", "r", "age", "q", "t", "d1", "d2"])}, depth=0, evars=NAMES[:3], nvars=['?N'])
            prefix, bound = b.query((1, 1))
            ops.append(dict(kind=kind, prefix=prefix, binding={}, effect=draw(effects(bound))))
        else:
            ops.append(dict(kind='again', index=draw(st.integers(0, 9))))
    asked = [draw(questions()) for _ in range(draw(st.integers(1, 3)))]
    asked.extend([(n,) + tuple(('?N' if k == 'n' else v) for k, v in zip(SIG[n], ('?X', '?Y')))] for n in ("q", "d1", "d2", "d3", "t"))
    initial = []
    for _ in range(draw(st.integers(0, 2))):
        initial.append(draw(rule_for()))
    return dict(data=data, ops=ops, asked=asked, initial=initial, two=draw(st.integers(0, 2)) == 0)


class Boom(Exception):
    pass


def build(case):
    import sqlite3
    from richard.core.Model import Model
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.SimpleMemoryModule import SimpleMemoryModule
    from richard.type.InferenceRule import InferenceRule

    class Memory(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            for name, homes in HOMES.items():
                if 'S' in homes:
                    columns = [f"c{i}" for i in range(len(SIG[name]))]
                    self.data_source.connection.execute(f"CREATE TABLE {name} ({', '.join(columns)})")
                    self.add_relation(Relation(name, arguments=columns))

    class Second(SomeModule):
        def __init__(self):
            super().__init__()
            self.ds = SimpleDataSource()
            for name, homes in HOMES.items():
                if 'M' in homes:
                    columns = [f"c{i}" for i in range(len(SIG[name]))]
                    self.add_relation(Relation(name, arguments=columns, query_function=self.query, write_function=self.write))

        def query(self, values, context):
            return self.ds.select(context.relation.predicate, context.relation.arguments, values)

        def write(self, values, context):
            self.ds.insert(context.relation.predicate, context.relation.arguments, values)

    class Given(SomeModule):
        def __init__(self):
            super().__init__()
            for name, (arity, rows) in case['data'].items():
                self.add_relation(Relation(name, query_function=(lambda rows: lambda values, context: [
                    list(r) for r in rows if all(v is None or v == x for v, x in zip(values, r))])(rows)))
            self.add_relation(Relation("boom", query_function=self.boom))
            self.add_relation(Relation("never", query_function=lambda values, context: []))

        def boom(self, values, context):
            raise Boom()

    inference = [InferenceModule() for _ in range(2 if case['two'] else 1)]
    for _, head, body in case['initial']:
        inference[0].insert_rule(InferenceRule(to_repo(head), to_repo(body)))
    return Model([Memory(), Second(), Given()] + inference), {'S': Memory, 'M': Second}


def check(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver

    model, memories = build(case)
    memories = {home: [m for m in model.modules if isinstance(m, kind)][0] for home, kind in memories.items()}
    stored = {home: {n: [] for n, homes in HOMES.items() if home in homes} for home in memories}
    solver = Solver(model)
    facts = {n: list(rows) for n, (a, rows) in case['data'].items()}
    for n, homes in HOMES.items():
        if homes:
            facts.setdefault(n, [])
    rules = {}
    for _, head, body in case['initial']:
        rules.setdefault(head[0], []).append((head[1:], body))
    for n in SIG:
        rules.setdefault(n, [])

    def answers():
        ref = Ref(facts, rules)
        return [ref.solve(q, {}) for q in case['asked']]

    def known(name):
        """there is a module with this predicate"""
        return HOMES[name] != "" or bool(rules[name])

    def predicates(x, out):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out.add(x[0])
        if isinstance(x, (tuple, list)):
            for y in x:
                predicates(y, out)
        return out

    def askable(atoms):
        """all predicates the question can reach exist: a question with an unknown predicate is an error by design"""
        agenda, seen = {n for n in predicates(atoms, set()) if n in SIG}, set()
        while agenda:
            n = agenda.pop()
            if not known(n):
                return False
            seen.add(n)
            for head, body in rules[n]:
                agenda |= {m for m in predicates(body, set()) if m in SIG} - seen
        return True

    def compare_memories():
        for home, module in memories.items():
            # a model with this memory only
            alone = Solver(Model([module]))
            for n, rows in stored[home].items():
                names = [f"V{i}" for i in range(len(SIG[n]))]
                actual = alone.solve([to_repo((n,) + tuple('?' + v for v in names))], {})
                expect(bindings_equal(distinct(actual), distinct([dict(zip(names, r)) for r in rows])), "a module that accepts a fact does not have exactly what was stored",
                       predicate=n, module=home, answers=actual, expected=rows)

    def compare(when):
        for query, expected in zip(case['asked'], answers()):
            if not askable(query):
                continue
            actual = solver.solve(to_repo(query), {})
            expect(bindings_equal(actual, expected), "wrong answers " + when, query=query, answers=actual, expected=expected,
                   facts=facts, rules={k: v for k, v in rules.items() if v})

    compare("before anything was learned")
    before, changes, learned = answers(), 0, set()
    done = []
    for op in case['ops']:
        if op['kind'] == 'again':
            if not done:
                continue
            # learning the same once more
            op = done[op['index'] % len(done)]
            rec.label("learned again")
        if op['prefix'] and not askable(op['prefix']):
            continue
        done.append(op)
        effect = op['effect']
        if effect[0] == 'store':
            atom = ('store', effect[1])
        else:
            atom = ('learn_rule', effect[1], effect[2])
        query = op['prefix'] + [atom]
        starts = Ref(facts, rules).solve(op['prefix'], op['binding'])
        if op['kind'] == 'raise':
            query = op['prefix'] + [('boom',), atom]
            if starts:
                try:
                    solver.solve(to_repo(query), dict(op['binding']))
                except Boom:
                    pass
                else:
                    expect(False, "an error raised by a relation was swallowed", query=query)
                rec.label("question that raises")
            compare("after a question that raised an error")
            continue
        if op['kind'] == 'failing':
            query = op['prefix'] + [('never',), atom]
            actual = solver.solve(to_repo(query), {})
            expect(actual == [], "a failing question has answers", query=query, answers=actual)
            compare("after a question that failed")
            continue
        actual = solver.solve(to_repo(query), dict(op['binding']))
        expect(bindings_equal(actual, starts), "wrong answers for a question that learns", query=query, answers=actual, expected=starts)
        for b in starts:
            values = {'?' + k: v for k, v in b.items()}
            if effect[0] == 'store':
                for a in subst(effect[1], values):
                    if set(HOMES[a[0]]) & set("SM"):
                        facts[a[0]].append(a[1:])
                        learned.add(a)
                    for home in stored:
                        if home in HOMES[a[0]]:
                            stored[home][a[0]].append(a[1:])
            else:
                head, body = subst(effect[1], values), subst(effect[2], values)
                rules[head[0]].append((head[1:], body))
                learned.add((head[0], repr(head), repr(body)))
                if values:
                    rec.label("rule learned with values for its variables")
        if len(starts) > 1:
            rec.label("learned several things in one question")
        compare("right after learning")
        after = answers()
        if after != before:
            changes += 1
            before = after
    compare_memories()
    # once more, in another order: asking changes nothing
    for query, expected in reversed(list(zip(case['asked'], answers()))):
        if askable(query):
            actual = Solver(model).solve(to_repo(query), {})
            expect(bindings_equal(actual, expected), "wrong answers at the end", query=query, answers=actual, expected=expected)
    rec.label(f"{min(len(learned), 5)} things learned")
    rec.interesting(changes >= 2)


# ---------------------------------------------------------------- grammar

@st.composite
def learned_grammars(draw):
    rules = draw(grammars(upper=True, boosts=draw(st.booleans())))
    n = len(rules)
    order = draw(st.permutations(range(n)))
    known = draw(st.integers(0, max(0, n - 1)))
    texts = [draw(sentences(rules)) for _ in range(draw(st.integers(1, 4)))]
    return dict(rules=[rules[i] for i in order], known=known, texts=[t for t in texts if len(t) <= 24],
                batch=draw(st.sampled_from([1, 1, 2])), fail=draw(st.booleans()))


def check_grammar(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeModule import SomeModule
    from richard.module.GrammarModule import GrammarModule
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    rules, simple = case['rules'], make_simple_grammar(case['rules'])
    grammar = SimpleGrammarRulesParser().parse_read_grammar(simple[:case['known']])
    parser = BasicParser(grammar)
    never = SomeModule.__new__(type("M", (SomeModule,), {}))
    never.__init__()
    never.add_relation(Relation("never", query_function=lambda values, context: []))
    solver = Solver(Model([GrammarModule(grammar), never]))
    known, grown = case['known'], 0
    previous = None
    while True:
        counts = []
        for text in case['texts']:
            reference = Reference(rules[:known], text)
            if reference.total() > 100:
                counts.append(None)
                continue
            expected = sorted(reference.all_trees(), key=repr)
            result = parser.process(SentenceRequest(text))
            actual = sorted([tree_of(node.parse_tree) for node in result.products], key=repr)
            expect(actual == expected, "wrong parse trees with the rules known so far", text=text, known=known, trees=actual, expected=expected)
            counts.append(len(expected))
        if previous is not None and counts != previous:
            grown += 1
        previous = counts
        if known == len(rules):
            break
        for _ in range(case['batch']):
            if known < len(rules):
                if case['fail']:
                    solver.solve([('never',), ('learn_grammar_rule', simple[known])], {})
                    expect(sorted(map(repr, (tree_of(n.parse_tree) for n in parser.process(SentenceRequest(text)).products))) == sorted(map(repr, Reference(rules[:known], text).all_trees()))
                           if counts and counts[-1] is not None else True, "a failed question changed the grammar")
                answers = solver.solve([('learn_grammar_rule', simple[known])], {})
                expect(answers == [{}], "learning a grammar rule does not succeed once", answers=answers)
                known += 1
    rec.label(f"readings changed {min(grown, 4)} times")
    rec.interesting(grown >= 2)


# ---------------------------------------------------------------- dialog

NOUNS = ["boy", "person", "city", "river"]
NEW_WORDS = ["zorp", "blick", "dax", "wug", "toma"]
PEOPLE = ["anna", "bob", "carla"]


@st.composite
def dialogs(draw):
    lines = []
    for _ in range(draw(st.sampled_from([5, 8, 12, 16]))):
        kind = draw(st.sampled_from(['fact', 'fact', 'rule', 'rule', 'word', 'word', 'who', 'is', 'who', 'is', 'bad', 'raise', 'rise']))
        if kind in ('fact', 'is', 'raise'):
            lines.append((kind, draw(st.sampled_from(PEOPLE)), draw(st.sampled_from(NOUNS + NEW_WORDS[:2]))))
        elif kind == 'rule':
            lines.append((kind, draw(st.sampled_from(NOUNS)), draw(st.sampled_from(NOUNS))))
        elif kind == 'word':
            lines.append((kind, draw(st.sampled_from(NEW_WORDS[:3])), draw(st.sampled_from(NOUNS))))
        elif kind == 'rise':
            lines.append((kind, draw(st.sampled_from(NOUNS))))
        else:
            lines.append((kind, draw(st.sampled_from(NOUNS + NEW_WORDS[:2]))))
    return dict(lines=lines)


def check_dialog(case, rec):
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.module.GrammarModule import GrammarModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.SimpleMemoryModule import SimpleMemoryModule
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

    V = Variable
    isa = lambda noun, v: ('isa_' + noun, v)

    def noun_rule(word, noun):
        return {"syn": f"noun(E) -> '{word}'", "sem": lambda: [isa(noun, V('E'))]}

    simple = [
        {"syn": "s(E) -> name(E) 'is' 'a' noun(E)", "sem": lambda n, noun: n, "exec": lambda n, noun: [('bind', V('E'), n[0][2]), ('store', noun)]},
        {"syn": "s(E) -> 'raise' name(E) 'is' 'a' noun(E)", "sem": lambda n, noun: n,
         "exec": lambda n, noun: [('boom',), ('bind', V('E'), n[0][2]), ('store', noun)]},
        {"syn": "s(E1) -> 'all' noun(E1)+'s' 'are' noun(E1)+'s'", "sem": lambda a, b: [], "exec": lambda a, b: [('learn_rule', b[0], a)]},
        {"syn": "s(E1) -> 'all' noun(E1)+'s' 'rise'", "sem": lambda a: [], "exec": lambda a: [('learn_rule', ('rises', V('E1')), a)]},
        {"syn": "s(E1) -> 'a' word(E2) 'means' noun(E1)", "sem": lambda w, noun: [], "exec": lambda w, noun: [('learn_word', w, noun)]},
        {"syn": "s(E1) -> 'who' 'is' 'a' noun(E1)", "sem": lambda noun: noun},
        {"syn": "s(E1) -> 'is' name(E1) 'a' noun(E1)", "sem": lambda n, noun: n + noun},
        {"syn": "word(E1) -> /\\w+/", "sem": lambda t: t},
    ]
    simple += [noun_rule(n, n) for n in NOUNS]
    simple += [{"syn": f"name(E) -> '{p}'", "sem": (lambda p: lambda: [('equals', V('E'), p)])(p)} for p in PEOPLE]
    grammar = SimpleGrammarRulesParser().parse_read_grammar(simple)

    class Memory(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            for n in NOUNS:
                self.data_source.connection.execute(f"CREATE TABLE isa_{n} (e)")
                self.add_relation(Relation('isa_' + n, arguments=['e']))
            self.add_relation(Relation('boom', query_function=self.boom))
            self.add_relation(Relation('bind', query_function=lambda values, context: [[values[1], values[1]]]))
            self.add_relation(Relation('learn_word', query_function=self.learn_word))

        def boom(self, values, context):
            raise Boom()

        def learn_word(self, values, context):
            word, noun = values
            context.solver.solve([('learn_grammar_rule', noun_rule(word, noun[0][0][4:]))], {})
            return [[None, None]]

    model = Model([Memory(), InferenceModule(), GrammarModule(grammar), BasicOutputBuffer()])
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(parser), TryFirst(composer), TryFirst(executor)])

    # the model of the dialog
    words = {n: [n] for n in NOUNS}
    facts = {n: set() for n in NOUNS}
    isa_rules = []

    def members(noun):
        found, seen, agenda = set(), set(), [noun]
        while agenda:
            n = agenda.pop()
            if n in seen:
                continue
            seen.add(n)
            found |= facts[n]
            agenda.extend(a for a, b in isa_rules if b == n)
        return found

    def reaches(a, b):
        seen, agenda = set(), [a]
        while agenda:
            n = agenda.pop()
            if n == b:
                return True
            if n not in seen:
                seen.add(n)
                agenda.extend(y for x, y in isa_rules if x == n)
        return False

    used = set()
    # at the end every word is asked for
    for line in case['lines'] + [('who', w) for w in NOUNS + NEW_WORDS[:3]]:
        kind, args = line[0], line[1:]
        if kind == 'word':
            word, noun = args
            if word in words:
                continue                        # would make it ambiguous
            text = f"a {word} means {noun}"
        elif kind in ('fact', 'raise'):
            text = ("raise " if kind == 'raise' else "") + f"{args[0]} is a {args[1]}"
        elif kind == 'rule':
            if args[0] == args[1] or reaches(args[1], args[0]):
                continue                        # circular
            text = f"all {args[0]}s are {args[1]}s"
        elif kind == 'rise':
            text = f"all {args[0]}s rise"
        elif kind == 'who':
            text = f"who is a {args[0]}"
        elif kind == 'is':
            text = f"is {args[0]} a {args[1]}"
        else:
            text = f"{args[0]} is who"
        try:
            answer = system.enter(SentenceRequest(text))
        except Boom:
            expect(kind == 'raise' and args[1] in words, "unexpected error", text=text)
            continue
        understood = kind != 'bad' and (kind not in ('fact', 'who', 'is', 'raise') or args[-1] in words)
        expect((answer is not None) == understood, "a sentence was understood or not, against what was learned", text=text, answer=answer, words=sorted(words))
        if not understood:
            continue
        if kind == 'fact':
            facts[words[args[1]][0]].add(args[0])
        elif kind == 'rule':
            isa_rules.append(args)
        elif kind == 'word':
            words[args[0]] = words[args[1]]
        elif kind == 'who':
            noun = words[args[0]][0]
            expected = members(noun)
            found = [b for b in answer]
            values = [list(b.values()) for b in found]
            expect(sorted(values) == sorted([e] for e in expected), "wrong answer", text=text, answer=answer, expected=sorted(expected), rules=isa_rules, facts=facts)
            if expected - facts[noun]:
                used.add("rule")
            if args[0] in NEW_WORDS and expected:
                used.add("word")
            if expected:
                used.add("fact")
        elif kind == 'is':
            noun = words[args[1]][0]
            expect(len(answer) == (1 if args[0] in members(noun) else 0), "wrong answer", text=text, answer=answer, rules=isa_rules, facts=facts)
    for u in used:
        rec.label("answer through a learned " + u)
    rec.interesting(len(used) > 1)


# ---------------------------------------------------------------- memory modules

WORDS = ["x", "$1", "$2", "$10", "E1", "it's", "", "É", "X", "100%", "city", "007", "1", "1.0", "1e3"]
RELATIONS = {'dialog_isa': 2, 'note': 1, 'link': 2, 'trio': 3, 'output_value': 1, 'output_list': 1, 'output_type': 1, 'output_value_with_unit': 2}


@st.composite
def memories(draw):
    steps = []
    words = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4, unique=True))
    for _ in range(draw(st.integers(2, 14))):
        name = draw(st.sampled_from(['dialog_isa'] * 3 + sorted(RELATIONS)))
        world = draw(st.sampled_from([0, 0, 0, 1]))
        kind = draw(st.sampled_from(['write', 'write', 'write', 'store', 'ask', 'ask', 'clear', 'two']))
        args = lambda: [draw(st.sampled_from(words)) for _ in range(RELATIONS[name])]
        if kind == 'clear':
            steps.append(dict(kind=kind, world=world, module=draw(st.sampled_from(['dialog', 'memory', 'output']))))
        elif kind == 'ask':
            steps.append(dict(kind=kind, world=world, name=name, args=[draw(st.sampled_from(words + [None, None])) for _ in range(RELATIONS[name])]))
        elif kind == 'two':
            steps.append(dict(kind='store', world=world, name=name, rows=[args() for _ in range(2)]))
        else:
            steps.append(dict(kind=kind, world=world, name=name, rows=[args()]))
    return dict(steps=steps)


def check_memory(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.module.BasicDialogContext import BasicDialogContext
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.module.SimpleMemoryModule import SimpleMemoryModule

    class Memory(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            for name in ('note', 'link', 'trio'):
                self.add_relation(Relation(name, arguments=[f"c{i}" for i in range(RELATIONS[name])]))

        def clear(self):
            super().clear()
            cursor = self.data_source.connection.cursor()
            for name in ('note', 'link', 'trio'):
                columns = ", ".join(f"c{i} TEXT" for i in range(RELATIONS[name]))
                cursor.execute(f"CREATE TABLE {name} ({columns})")

    worlds = []
    for _ in range(2):
        modules = dict(dialog=BasicDialogContext(), memory=Memory(), output=BasicOutputBuffer())
        worlds.append((modules, Solver(Model(list(modules.values()))), {name: [] for name in RELATIONS}))
    home = lambda name: 'dialog' if name == 'dialog_isa' else 'output' if name.startswith('output') else 'memory'

    def look(world, name, args):
        solver, known = worlds[world][1], worlds[world][2][name]
        atom = (name,) + tuple(Variable(f"V{i}") if a is None else a for i, a in enumerate(args))
        found = sorted(tuple(b.get(f"V{i}", a) if a is None else a for i, a in enumerate(args)) for b in solver.solve([atom]))
        wanted = sorted({tuple(r) for r in known if all(a is None or a == v for a, v in zip(args, r))})
        expect(found == wanted, "a memory module does not have exactly the facts that were stored in it", history=done, question=atom, found=found, expected=wanted)
        return wanted

    done = []
    for step in case['steps']:
        modules, solver, known = worlds[step['world']]
        done.append(step)
        if step['kind'] == 'clear':
            modules[step['module']].clear()
            for name in RELATIONS:
                if home(name) == step['module']:
                    known[name] = []
            rec.label("cleared " + step['module'])
        elif step['kind'] == 'ask':
            look(step['world'], step['name'], step['args'])
        else:
            if step['kind'] == 'write':
                for row in step['rows']:
                    solver.write_atom((step['name'],) + tuple(row))
            else:
                solver.solve([('store', [(step['name'],) + tuple(row) for row in step['rows']])])
            known[step['name']].extend(step['rows'])
            rec.label("stored in " + home(step['name']))
        for world in (0, 1):
            for name, arity in RELATIONS.items():
                rec.interesting(len(look(world, name, [None] * arity)) > 1)


PARTS = [Part("memory", memories, check_memory, quick=1500, thorough=40000),
         Part("history", histories, check, quick=2500, thorough=80000),
         Part("grammar", learned_grammars, check_grammar, quick=1500, thorough=40000),
         Part("dialog", dialogs, check_dialog, quick=1200, thorough=40000)]
