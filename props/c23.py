"""C23: a multilingual pipeline uses each language's own processor."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import to_repo
from vlib.runner import Part
from vlib.world import keyed

RULE = ("Random lists of 1 to 4 locales, each with its own small grammar over a shared vocabulary (so that one sentence can mean different "
        "things, or be ambiguous, in several languages), some sharing a parser, some without one; per-language filters that reject readings "
        "before execution; FindOne, FindAll and TryFirst blocks; several sentences per dialogue whose readings store facts. Which readings "
        "are seen by which language's processors, answers, stored facts, current locale and errors are compared with running the monolingual pipelines one "
        "after the other on a twin model. Non-trivial: the first language is not the (only) one that accepts a sentence.")
ASSUMPTIONS = ["a locale without a processor is an error that ends the sentence when it is tried"]

LOCALES = ['en_US', 'nl_NL', 'en-US', 'en', 'nl', '', 'EN_US', 'nl_BE', 'en_US.UTF-8']
WORDS = ['die', 'gift', 'rot', 'see']
LINKS = ['of', 'op']
PREDICATES = ['p1', 'p2', 'p3']


@st.composite
def languages(draw):
    words = draw(st.lists(st.sampled_from(WORDS), min_size=2, max_size=4, unique=True))
    return dict(nouns=[(w, draw(st.sampled_from(PREDICATES))) for w in words],
                link=draw(st.sampled_from([None, 'of', 'of', 'op'])),
                forms=draw(st.lists(st.sampled_from(['np', 'go np', 'np go', 'np?']), min_size=1, max_size=3, unique=True)),
                number=draw(st.booleans()))


FORMS = {'np': "s(E1) -> np(E1)", 'go np': "s(E1) -> 'go' np(E1)", 'np go': "s(E1) -> np(E1) 'go'", 'np?': "s(E1) -> np(E1)+'?'"}


@st.composite
def sentences(draw, language):
    def noun():
        return draw(st.sampled_from([n[0] for n in language['nouns']])) if draw(st.integers(0, 9)) < 9 else draw(st.sampled_from(WORDS))
    nouns = [noun()]
    if language['link']:
        nouns += [noun() for _ in range(draw(st.sampled_from([0, 0, 1, 2, 2])))]
    np = f" {language['link']} ".join(nouns)
    text = draw(st.sampled_from(language['forms'])).replace('np', np)
    if draw(st.integers(0, 9)) == 9:
        text = draw(st.sampled_from(["", text + " zzz", "go", "zzz", text + "?"]))
    return draw(st.sampled_from([text, text, text.upper()]))


@st.composite
def cases(draw):
    count = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    locales = draw(st.lists(st.sampled_from(LOCALES), min_size=count, max_size=count, unique=True))
    grammars = {name: draw(languages()) for name in locales}
    # some languages share the grammar and the parser
    parsers = {name: name for name in locales}
    if count > 1 and draw(st.integers(0, 4)) == 4:
        parsers[locales[-1]] = locales[0]
    missing = draw(st.sampled_from(locales)) if draw(st.integers(0, 9)) > 7 else None
    extra = draw(st.sampled_from([x for x in LOCALES if x not in locales]))
    order = list(draw(st.permutations(locales)))
    listed = order if draw(st.integers(0, 4)) < 4 else order + [draw(st.sampled_from(order))]
    grammars[extra] = draw(languages())
    parsers[extra] = extra
    return dict(listed=listed, logged=draw(st.sampled_from([False, False, 'all', 'selector'])), order=draw(st.permutations(sorted(grammars))), grammars=grammars, parsers=parsers, missing=missing,
                rejects={name: draw(st.sampled_from(['none', 'none', 'none', 'none', 'all', 'odd', 'even'])) for name in sorted(grammars)},
                blocks=[draw(st.sampled_from(['FindOne', 'FindOne', 'FindAll', 'FindAll', 'TryFirst']))] +
                [draw(st.sampled_from(['FindOne', 'FindAll', 'TryFirst'])) for _ in range(4)],
                rows={p: draw(st.lists(st.sampled_from([1, 2, 3, 'a']), max_size=3, unique=True)) for p in PREDICATES},
                texts=[draw(sentences(grammars[draw(st.sampled_from(sorted(grammars)))])) for _ in range(draw(st.integers(1, 4)))])


def make_grammar(name, language):
    from richard.core.constants import E1, E2, e1
    rules = []
    for n, form in enumerate(language['forms']):
        rules.append(dict(syn=FORMS[form], sem=lambda np: np, dialog=[('said', name, n)]))
    if language['link']:
        rules.append(dict(syn=f"np(E1) -> np(E1) '{language['link']}' np(E2)", sem=lambda a, b: a + [('scoped', b)], dialog=[('linked', name, e1)]))
    for word, predicate in language['nouns']:
        rules.append(dict(syn=f"np(E1) -> '{word}'", sem=lambda predicate=predicate: [(predicate, E1)]))
    if language['number']:
        rules.append(dict(syn="np(E1) -> /\\d+/", sem=lambda token: [('equals', E1, token)]))
    return rules


def check(case, rec):
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Logger import Logger
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeModule import SomeModule
    from richard.interface.SomeProcessor import SomeProcessor
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.core.Solver import Solver
    from richard.processor.language_selector.LanguageSelector import LanguageSelector
    from richard.processor.language_selector.Multilingual import Multilingual
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

    kinds = dict(FindOne=FindOne, FindAll=FindAll, TryFirst=TryFirst)

    class Store(SomeModule):
        def __init__(self):
            super().__init__()
            self.facts = []
            for p in PREDICATES:
                self.add_relation(Relation(p, arguments=['e'], query_function=self.rows))
            for p in ('said', 'linked'):
                self.add_relation(Relation(p, arguments=['l', 'n'], query_function=lambda v, c: [], write_function=self.write))

        def rows(self, values, context):
            # what was said changes the answers to later sentences
            rows = case['rows'][context.relation.predicate] + [f for f in range(10, 10 + min(3, len(self.facts)))]
            return [[r] for r in rows if values[0] is None or (type(r) is type(values[0]) and r == values[0])]

        def write(self, values, context):
            # the names of the variables are up to the composer
            self.facts.append((context.relation.predicate,) + tuple('name' if context.relation.predicate == 'linked' and i == 1 else v for i, v in enumerate(values)))

    class Passed:
        def get_output(self):
            return None

        def log(self, logger):
            pass

    class Filter(SomeProcessor):
        """one language's own processor: sees the reading, and may reject it"""
        def __init__(self, name, parser, events):
            self.name, self.parser, self.events = name, parser, events

        def get_name(self):
            return "Filter " + self.name

        def process(self, request):
            tree = request.get_current_product(self.parser).parse_tree
            self.events.append((self.name, picture(tree)))
            policy = case['rejects'][self.name]
            odd = len(picture(tree)) % 2 == 1
            if policy == 'all' or (policy == 'odd' and odd) or (policy == 'even' and not odd):
                return ProcessResult([], "rejected", [self.name])
            return ProcessResult([Passed()], "")

    class Watch(AtomExecutor):
        def __init__(self, composer, model, events):
            super().__init__(composer, model)
            self.events = events

        def process(self, request):
            result = super().process(request)
            self.events.append(('bindings', [sorted(map(repr, b.values())) for b in result.products[0].bindings]))
            return result

    def make_model():
        store, buffer = Store(), BasicOutputBuffer()
        buffer.add_relation(Relation("output_rejected", arguments=["locale"]))
        return store, buffer, Model([store, buffer])

    used = [n for n in case['order'] if n != case['missing']]
    blocks = [kinds[b] for b in case['blocks']]

    # the multilingual pipeline
    parsed = {name: SimpleGrammarRulesParser().parse_read_grammar(make_grammar(case['parsers'][name], case['grammars'][case['parsers'][name]]))
              for name in used}
    store, buffer, model = make_model()
    events = []
    selector = LanguageSelector(list(case['listed']))
    shared = {}
    parsers = {}
    for name in used:
        key = case['parsers'][name]
        if key not in shared:
            shared[key] = BasicParser(parsed[name])
        parsers[name] = shared[key]
    parser = Multilingual(parsers, selector)
    composer = SemanticComposer(parser)
    filter_ = Multilingual({name: Filter(name, parser, events) for name in used}, selector)
    executor = Watch(composer, model, events)
    system = System(model=model, input_pipeline=[b(p) for b, p in zip(blocks, [selector, parser, composer, filter_, executor])])

    # the monolingual pipelines, all on one twin model
    store2, buffer2, model2 = make_model()
    events2 = []
    mono = {}
    for name in used:
        p = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(make_grammar(case['parsers'][name], case['grammars'][case['parsers'][name]])))
        c = SemanticComposer(p)
        f = Filter(name, p, events2)
        e = Watch(c, model2, events2)
        pipeline = [b(x) for b, x in zip(blocks[1:], [p, c, f, e])]
        System(model=model2, input_pipeline=pipeline)
        mono[name] = (pipeline, e)

    def stored(m):
        out = []
        for t in Solver(m).solve([('output_type', to_repo('?T'))]):
            kind = t['T']
            arity = 1 if kind in ('unknown_word', 'rejected') else 0
            out.append((kind, keyed(Solver(m).solve([('output_' + kind,) + tuple(to_repo('?A') for _ in range(arity))]))))
        return out

    for text in case['texts']:
        del events[:], events2[:]
        accepted, first, answer, raised, current = [], None, None, False, None
        for name in case['listed']:
            current = name
            if name == case['missing']:
                raised = True
                break
            request2 = SentenceRequest(text)
            result = mono[name][0][0].process(request2)
            if result.error_type == "":
                accepted.append(name)
                answer = request2.get_current_product(mono[name][1]).get_output()
                if case['blocks'][0] == 'FindOne':
                    break
            elif first is None:
                first = (result.error_type, result.error_args)
            if case['blocks'][0] == 'TryFirst':
                break
        buffer.clear()
        logger = Logger()
        if case['logged']:
            logger.log_all_tests()
            logger.log_products(*([selector] if case['logged'] == 'selector' else []))
            request = SentenceRequest(text, logger)
        else:
            request = SentenceRequest(text)
        detail = dict(text=text, listed=case['listed'], missing=case['missing'], blocks=case['blocks'],
                      grammars={n: [r['syn'] for r in make_grammar(n, case['grammars'][case['parsers'][n]])] for n in used})
        error = None
        try:
            output = system.enter(request)
        except Exception as e:
            error = e
        if error is not None and not raised:
            raise error
        if case['logged'] == 'selector':
            expect([e for e in logger.entries if e.endswith("\n") and e[:-1] in case['listed']] == [n + "\n" for n in case['listed']],
                   "the log of the language selector does not show the locales", log=logger.entries, **detail)
        if raised and error is None:
            expect(len(stored(model)) > 0, "a locale without a processor is not reported as an error", answer=output, **detail)
        expect(events == events2, "the sentence was not processed by exactly the processors of the locales to be tried", seen=list(events),
               monolingual=list(events2), **detail)
        expect(store.facts == store2.facts, "other facts are stored than by the monolingual pipelines", stored=store.facts, monolingual=store2.facts, **detail)
        if not raised:
            expect(request.get_current_product(selector).locale == current, "wrong current locale afterwards", current=request.get_current_product(selector).locale, **detail)
            if accepted:
                expect(stored(model) == [], "an accepted sentence stored an error", stored=stored(model), **detail)
                if accepted[-1] == current:
                    expect(output_of(output) == output_of(answer), "the answer is not that of the accepting locale", answer=output, monolingual=answer, **detail)
            else:
                buffer2.clear()
                Solver(model2).solve([('store', [('output_type', first[0]), ('output_' + first[0], *first[1])])])
                expect(stored(model) == stored(model2), "the stored error is not that of the first locale", stored=stored(model), expected=first, **detail)
        rec.label("raised" if raised else "accepted" if accepted else "rejected", f"{len(case['listed'])} locales")
        if len(accepted) > 1:
            rec.label("several languages")
        rec.interesting(bool(accepted) and accepted != case['listed'][:1])


def output_of(x):
    return repr([sorted(map(repr, b.values())) for b in x]) if isinstance(x, list) and all(isinstance(b, dict) for b in x) else repr(x)


def picture(node):
    if node.form != "":
        return node.form
    return node.category + "(" + ",".join(picture(c) for c in node.children) + ")"


PARTS = [Part("dialogues", cases, check, quick=10000, thorough=200000)]
