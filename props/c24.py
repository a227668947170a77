"""C24: sentences do not disturb each other."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.runner import Part

RULE = ("Random dialogues with one system (parser, composer, optional optimiser, executor, generator, rules, learnable words and rules, contexts, dialog facts, output "
        "buffer). Sentences that store or learn something are mixed with questions (repeated, in any order), sentences that are not understood, "
        "and sentences that raise an error halfway: after storing output, inside contexts, in a rule, in the grammar, while generating. "
        "Every answer, output and error is compared with that of the same sentence in a fresh system that only heard the sentences "
        "that stored or learned something. Non-trivial: an answered question comes after a raising or failing sentence, and something was stored before.")
ASSUMPTIONS = ["the output of a sentence is read after it, unless the sentence raised an error", "a sentence that raises an error stores nothing else than output before it"]

PEOPLE = ['anna', 'bob', 'carla']
NOUNS = ['person', 'boy', 'city']
NEW = ['dax', 'wug']
TOPICS = ['talk', 'walk', 'secret']
CRASHES = ['list', 'context', 'contexts', 'unknown', 'grammar', 'command', 'rule', 'rows', 'output', 'storing', 'value', 'negation', 'table', 'readings', 'fact']


class Boom(Exception):
    pass


@st.composite
def sentences(draw):
    noun = st.sampled_from(NOUNS + NEW)
    person = st.sampled_from(PEOPLE)
    kind = draw(st.sampled_from(['ask'] * 9 + ['do'] * 6 + ['crash'] * 5 + ['bad'] * 2))
    if kind == 'ask':
        text = draw(st.sampled_from(["who is a N?", "who is near P?", "who likes P?", "is P a N?", "is P a N?", "how many Ns?", "does P like P?", "who likes a N?", "which topics?", "which crowd?", "within T: which topics?",
                                     "within T: within T: which topics?", "within T: who is a N?", "who was mentioned?", "what of N of N of N?", "who likes no N?", "who is not a N?"]))
    elif kind == 'do':
        text = draw(st.sampled_from(["P is a N.", "P is a N.", "P likes P.", "P likes P.", "every N is a N.", "every N is a N.", "a W means N.", "start T.", "start T.", "stop T.",
                                     "mention P.", "P is a N and P likes P."]))
    elif kind == 'crash':
        text = "crash " + draw(st.sampled_from(CRASHES)) + draw(st.sampled_from(["", " about N", " with T"]))
    else:
        text = draw(st.sampled_from(["", "who", "who likes", "P likes zzz.", "zzz", "how many Ps?", "who is a N? who is a N?", "within T: zzz"]))
    out = ""
    for c in text:
        out += draw(noun) if c == 'N' else draw(person) if c == 'P' else draw(st.sampled_from(TOPICS)) if c == 'T' else draw(st.sampled_from(NEW)) if c == 'W' else c
    return kind, out


@st.composite
def cases(draw):
    lines = draw(st.lists(sentences(), min_size=4, max_size=12))
    again = [draw(st.sampled_from(lines)) for _ in range(draw(st.integers(0, 6)))]
    # questions are asked again, in another order
    lines = lines + [x for x in again if x[0] != 'do']
    return dict(lines=lines, optimizer=draw(st.booleans()), blocks=draw(st.lists(st.sampled_from(['FindOne', 'TryFirst']), min_size=3, max_size=3)),
                people=draw(st.lists(st.sampled_from(PEOPLE), unique=True, max_size=3)),
                likes=draw(st.lists(st.tuples(st.sampled_from(PEOPLE), st.sampled_from(PEOPLE)), max_size=3, unique=True)),
                read=draw(st.booleans()))


RULES = """
    intent_list(E1, Sem) :- find_all(E1, Sem, Elements), store(output_type('list'), output_list(Elements)).
    intent_yn(Body) :- ( scoped(Body), store(output_type('yes')) ; store(output_type('no')) ).
    intent_value(Variable, Sem) :- find_one(Variable, Sem, Result), store(output_type('value'), output_value(Result)).
    broken(A) :- isa_person(A), boom().
    friend(A, B) :- likes(A, B), likes(B, A).
    near(A, B) :- likes(A, B).
    near(A, B) :- likes(B, A).
    near('somebody', B).
"""


def make_system(case, logger=None):
    """returns ask(text) -> what happened. Other checks use it with a logger and several languages"""
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.core.constants import E1, E2, E3, Body, e1, e2
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.grammar.en_us_write import get_en_us_write_grammar
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicDialogContext import BasicDialogContext
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.module.GrammarModule import GrammarModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.SimpleMemoryModule import SimpleMemoryModule
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.parser.helper.grammar_functions import apply
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
    from richard.type.SemanticTemplate import SemanticTemplate

    def noun_rule(word, noun):
        return dict(syn=f"noun(E1) -> '{word}'", sem=lambda: [('isa_' + noun, E1)])

    ok = ('store', [('output_type', 'ok')])

    def explode(*args):
        raise Boom()

    def listing(body):
        return [('intent_list', e1, body)]

    class Facts(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            connection = self.data_source.connection
            for n in NOUNS:
                connection.execute(f"CREATE TABLE isa_{n} (e)")
                self.add_relation(Relation('isa_' + n, arguments=['e']))
            connection.execute("CREATE TABLE likes (a, b)")
            self.add_relation(Relation('likes', arguments=['a', 'b']))
            for p in case['people']:
                self.data_source.insert('isa_person', ['e'], [p])
            for a, b in case['likes']:
                self.data_source.insert('likes', ['a', 'b'], [a, b])

    class Tools(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation('boom', query_function=explode, arguments=[]))
            self.add_relation(Relation('boom_at', query_function=self.boom_at, arguments=['e']))
            self.add_relation(Relation('crowd', query_function=self.crowd, arguments=['n']))
            self.add_relation(Relation('learn_word', query_function=self.learn_word, arguments=['w', 'n']))

        def boom_at(self, values, context):
            if values[0] == 'carla' or values[0] is None:
                raise Boom()
            return [[None]]

        def crowd(self, values, context):
            n = len(facts.data_source.select('isa_person', ['e'], [None]))
            return [[n]] if values[0] is None or values[0] == n else []

        def learn_word(self, values, context):
            word, noun = values
            context.solver.solve([('learn_grammar_rule', noun_rule(word, noun[0][0][4:]))], {})
            return [[None, None]]

    crash = {
        'list': listing([('isa_person', E1)]) + [('boom',)],
        'context': [('with_context', 'secret', listing([('context', E1)]) + [('boom',)])],
        'contexts': [('with_context', 'talk', [('with_context', 'secret', [('with_context', 'talk', [('boom',)])])])],
        'unknown': [('store', [('output_type', 'yes')]), ('no_such_predicate', E1)],
        'rule': [('store', [('output_type', 'value'), ('output_value', 'wrong')]), ('broken', E1)],
        'rows': [('store', [('output_type', 'list'), ('output_list', ['wrong'])]), ('find_all', E1, [('isa_person', E1), ('boom_at', E1)], E2)],
        'output': [('store', [('output_type', 'weird')])],
        'storing': [('store', [('output_type', 'yes'), ('output_no_such_thing', 1)])],
        'value': [('count', E1, [('isa_person', E2), ('store', [('output_type', 'no')]), ('boom_at', E2)])],
        'negation': [('not', [('store', [('output_type', 'no')]), ('boom',)])],
        'table': [('store', [('output_type', 'format')])],
    }
    rules = [
        dict(syn="s(E1) -> q(E1)+'?'", sem=lambda q: q),
        dict(syn="s(E1) -> 'within' topic(E2)+':' s(E1)", sem=lambda topic, s: [('with_context', topic, s)]),
        dict(syn="q(E1) -> 'who' 'is' 'a' noun(E1)", sem=listing),
        dict(syn="q(E1) -> 'who' 'is' 'not' 'a' noun(E1)", sem=lambda n: listing([('isa_person', E1), ('not', n)])),
        dict(syn="q(E1) -> 'who' 'likes' name(E2)", sem=lambda n: listing(n + [('likes', E1, E2)])),
        dict(syn="q(E1) -> 'who' 'likes' np(E2)", sem=lambda np: listing([('isa_person', E1)] + apply(np, [('likes', E1, E2)]))),
        dict(syn="q(E1) -> 'who' 'is' 'near' name(E2)", sem=lambda n: listing(n + [('near', E1, E2)])),
        dict(syn="np(E1) -> 'a' noun(E1)", sem=lambda n: SemanticTemplate([Body], [('scoped', n + Body)])),
        dict(syn="np(E1) -> 'no' noun(E1)", sem=lambda n: SemanticTemplate([Body], [('none', n + Body)])),
        dict(syn="q(E1) -> 'is' name(E1) 'a' noun(E1)", sem=lambda n, noun: [('intent_yn', n + noun)]),
        dict(syn="q(E1) -> 'does' name(E1) 'like' name(E2)", sem=lambda a, b: [('intent_yn', a + b + [('likes', E1, E2)])]),
        dict(syn="q(E1) -> 'how' 'many' noun(E2)+'s'", sem=lambda n: [('intent_value', e1, [('count', E1, n)])]),
        dict(syn="q(E1) -> 'which' 'crowd'", sem=lambda: listing([('crowd', E1)])),
        dict(syn="q(E1) -> 'which' 'topics'", sem=lambda: listing([('context', E1)])),
        dict(syn="q(E1) -> 'who' 'was' 'mentioned'", sem=lambda: listing([('dialog_isa', E1, 'person')])),
        dict(syn="q(E1) -> 'what' 'of' chain(E1)", sem=lambda chain: listing([('equals', E1, chain)])),
        dict(syn="chain(E1) -> chain(E1) 'of' chain(E2)", sem=lambda a, b: f"({a} {b})"),
        dict(syn="chain(E1) -> noun(E1)", sem=lambda n: n[0][0]),
        dict(syn="s(E1) -> statement(E1)+'.'", sem=lambda s: s + [ok]),
        dict(syn="statement(E1) -> name(E1) 'is' 'a' noun(E1)", sem=lambda n, noun: n + [('store', noun)]),
        dict(syn="statement(E1) -> name(E1) 'likes' name(E2)", sem=lambda a, b: a + b + [('store', [('likes', E1, E2)])]),
        dict(syn="s(E1) -> statement(E1) 'and' statement(E2)+'.'", sem=lambda a, b: a + b + [ok]),
        dict(syn="s(E1) -> 'every' noun(E1) 'is' 'a' noun(E1)+'.'", sem=lambda a, b: [ok], exec=lambda a, b: [('learn_rule', b[0], a)]),
        dict(syn="s(E1) -> 'a' word(E2) 'means' noun(E1)+'.'", sem=lambda w, n: [ok], exec=lambda w, n: [('learn_word', w, n)]),
        dict(syn="s(E1) -> 'start' topic(E1)+'.'", sem=lambda t: [('start_context', t), ok]),
        dict(syn="s(E1) -> 'stop' topic(E1)+'.'", sem=lambda t: [('end_context', t), ok]),
        dict(syn="s(E1) -> 'mention' name(E1)+'.'", sem=lambda n: [ok], dialog=lambda n: [('dialog_isa', n[0][2], 'person')]),
        dict(syn="s(E1) -> 'crash' crash(E1)", sem=lambda c: c),
        dict(syn="s(E1) -> 'crash' crash(E1) 'about' noun(E1)", sem=lambda c, n: [('intent_list', e1, n)] + c),
        dict(syn="s(E1) -> 'crash' crash(E1) 'with' topic(E2)", sem=lambda c, t: [('with_context', t, c)]),
        dict(syn="crash(E1) -> 'grammar'", sem=explode),
        dict(syn="crash(E1) -> 'command'", sem=lambda: [], exec=lambda: [('store', [('output_type', 'yes')]), ('boom',)]),
        dict(syn="crash(E1) -> 'fact'", sem=lambda: [ok], dialog=lambda: [('no_such_fact', 1)]),
        dict(syn="crash(E1) -> 'readings'", sem=lambda: crash['list'], boost=1),
        dict(syn="crash(E1) -> /read\\w+/", sem=lambda t: [ok]),
        dict(syn="topic(E1) -> /[a-z]+/", sem=lambda t: t),
        dict(syn="word(E1) -> /[a-z]+/", sem=lambda t: t),
    ]
    for name in crash:
        rules.append(dict(syn=f"crash(E1) -> '{name}'", sem=lambda name=name: crash[name]))
    rules += [noun_rule(n, n) for n in NOUNS]
    rules += [dict(syn=f"name(E1) -> '{p}'", sem=lambda p=p: [('equals', E1, p)]) for p in PEOPLE]
    grammar = SimpleGrammarRulesParser().parse_read_grammar(rules)
    write = [
        dict(syn="s() -> 'OK'", **{'if': [('output_type', 'ok')]}),
        dict(syn="s() -> 'yes'", **{'if': [('output_type', 'yes'), ('crowd', 0)]}),
        dict(syn="s() -> 'yes' 'among' value(E2)", **{'if': [('output_type', 'yes'), ('crowd', E2)]}),
        dict(syn="s() -> 'no'", **{'if': [('output_type', 'no')]}),
        dict(syn="s() -> 'value' value(E1)", **{'if': [('output_type', 'value'), ('output_value', E1)]}),
        dict(syn="s() -> format(E1)", **{'if': [('output_type', 'list'), ('output_list', E1)]}, format=lambda x: "list " + ",".join(sorted(x) if x and x[0] in TOPICS else map(str, x))),
        dict(syn="s() -> 'format' format()", **{'if': [('output_type', 'format')]}, format=explode),
    ]
    inference = InferenceModule()
    parsed, position = SimpleInferenceRuleParser().parse(RULES)
    expect(position is None, "the rules could not be parsed", position=position)
    for rule in parsed:
        inference.insert_rule(rule)
    buffer = BasicOutputBuffer()
    facts = Facts()
    model = Model([facts, Tools(), inference, GrammarModule(grammar), BasicDialogContext(), buffer])
    parser = BasicParser(grammar)
    processors = [parser]
    if case.get('locales'):
        from richard.processor.language_selector.LanguageSelector import LanguageSelector
        from richard.processor.language_selector.Multilingual import Multilingual
        selector = LanguageSelector(case['locales'])
        parser = Multilingual({locale: parser for locale in case['locales']}, selector)
        processors = [selector, parser]
    composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model)) if case['optimizer'] else SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    processors += [composer, executor]
    kinds = dict(FindOne=FindOne, TryFirst=TryFirst, FindAll=FindAll)
    write_grammar = SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar() + write)
    system = System(model=model, input_pipeline=[kinds[b](p) for b, p in zip(case['blocks'], processors)],
                    output_generator=BasicGenerator(write_grammar, model, buffer))

    asked = []

    def ask(text):
        request = SentenceRequest(text, logger) if logger else SentenceRequest(text)
        result = ask_request(text, request)
        asked.append((request, products(request)))
        return result

    def products(request):
        """what a request holds"""
        out = [request.text]
        for p in processors:
            product = request.get_current_product(p)
            out.append((id(product), picture(product.get_output()) if product is not None else None, [id(x) for x in request.get_alternative_products(p)]))
        return out

    def picture(x):
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, len(x)) + tuple(picture(y) for y in x)
        return x.inline_str() if hasattr(x, 'inline_str') else getattr(x, 'name', repr(x))

    def ask_request(text, request):
        try:
            answer = system.enter(request)
        except Exception as e:
            # only now and then someone asks for output after an error
            output = None
            if case['read'] and len(text) % 2:
                try:
                    output = ('output', system.read_output())
                except Exception as e2:
                    output = ('error', type(e2).__name__)
            return ('raised', type(e).__name__, output)
        if answer is not None:
            # the order of the answers counts, but contexts have no order
            answer = (sorted if 'topics' in text else list)([repr(sorted((n if n[0] != '$' else '', repr(v)) for n, v in b.items())) for b in answer])
        try:
            return ('answer', answer, system.read_output())
        except Exception as e:
            return ('answer', answer, 'raised ' + type(e).__name__)
    ask.processors, ask.system = processors, system
    # earlier requests whose products are not what they were
    ask.changed = lambda: [(r.text, held, products(r)) for r, held in asked if products(r) != held]
    return ask


def acceptable(text, state):
    """does the sentence store something, and is it in the domain: no circular rules, no ambiguous words"""
    words = text.rstrip('.').split()
    if text.startswith("every"):
        a, b = words[1], words[4]
        a, b = state['words'].get(a), state['words'].get(b)
        if a is None or b is None:
            return False
        seen, agenda = set(), [b]
        while agenda:
            n = agenda.pop()
            if n == a:
                return False
            if n not in seen:
                seen.add(n)
                agenda.extend(y for x, y in state['rules'] if x == n)
        state['rules'].append((a, b))
        return True
    if text.startswith("a "):
        if words[1] in state['words'] or words[3] not in state['words']:
            return False
        state['words'][words[1]] = state['words'][words[3]]
        return True
    return all(w in state['words'] for w in words if w in NEW)


def check(case, rec):
    noisy = make_system(case)
    history, cache = [], {}
    state = dict(words={n: n for n in NOUNS}, rules=[])
    disturbed = False
    for number, (kind, text) in enumerate(case['lines']):
        if kind == 'do':
            if not acceptable(text, state):
                # not understood, or outside the domain
                if text.startswith("every") or text.startswith("a "):
                    continue
                kind = 'bad'
            else:
                history.append(text)
                result = noisy(text)
                expect(result[0] == 'answer' and result[2] == 'OK', "a statement was not accepted", text=text, result=result,
                       lines=case['lines'][:number])
                continue
        got = noisy(text)
        key = (len(history), text)
        if key not in cache:
            fresh = make_system(case)
            for h in history:
                fresh(h)
            cache[key] = fresh(text)
        expect(got == cache[key], "the result of a sentence depends on sentences that stored nothing", text=text, result=got, alone=cache[key],
               history=history, lines=case['lines'][:number])
        changed = noisy.changed()
        expect(changed == [], "the products of an earlier sentence changed", text=text, changed=changed)
        if got[0] == 'raised' or 'raised' in str(got[2]):
            rec.label('raised')
            disturbed = True
        elif kind == 'bad' or got[1] is None:
            rec.label('not understood')
            disturbed = True
        else:
            rec.label('answered')
            rec.interesting(disturbed and bool(history))


PARTS = [Part("dialogues", cases, check, quick=3000, thorough=60000)]
