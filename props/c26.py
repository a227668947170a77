"""C26: logging observes without interfering."""
import contextlib
import io
import re

from hypothesis import strategies as st

from props.c24 import acceptable, make_system, sentences, NOUNS, PEOPLE
from vlib.case import expect
from vlib.runner import Part

RULE = ("Random dialogues (see C24: statements, learning, questions, not understood and raising sentences; one or several languages; "
        "FindOne, FindAll and TryFirst blocks; optimiser on or off) run once without a logger and once with a random logger configuration that also "
        "changes during the dialogue. Answers, errors, outputs and all products must be the same, and an active logger must have a section for "
        "each selected processor that ran, in order, with its error and each of its products; an inactive logger and the shared null logger record "
        "nothing. Part `scripted` does so for pipelines of scripted processors (equal names, products next to an error), part `stats` for statistics of random queries, part `tester` through DialogTester. Non-trivial: a section with products and one with an error were recorded, or some processors "
        "ran unselected.")
ASSUMPTIONS = ["counted iterators occur only inside aggregates", "processors that raise have no section", "what the products' sections look like is free, as long as they show tree, "
               "meaning, bindings or locale"]


@st.composite
def configurations(draw, processors):
    return dict(which=draw(st.sampled_from(['all', 'all', 'all', 'last', 'none'])), last=draw(st.booleans()),
                products=draw(st.sampled_from([None, 'all', 'all', 'some', 'some'])), stats=draw(st.booleans()),
                selected=draw(st.lists(st.integers(0, processors - 1), unique=True, min_size=1)))


@st.composite
def systems(draw):
    locales = draw(st.sampled_from([None, None, None, ['en_US'], ['nl_NL', 'en_US'], ['en', 'en', 'x']]))
    n = 4 if locales else 3
    return dict(locales=locales, optimizer=draw(st.booleans()), blocks=draw(st.lists(st.sampled_from(['FindOne', 'FindAll', 'TryFirst']), min_size=n, max_size=n)),
                people=draw(st.lists(st.sampled_from(PEOPLE), unique=True, max_size=3)),
                likes=draw(st.lists(st.tuples(st.sampled_from(PEOPLE), st.sampled_from(PEOPLE)), max_size=3, unique=True)), read=draw(st.booleans()))


@st.composite
def cases(draw):
    system = draw(systems())
    lines = draw(st.lists(sentences(), min_size=2, max_size=8))
    changes = {i: draw(configurations(len(system['blocks']))) for i in range(len(lines)) if i == 0 or draw(st.integers(0, 4)) == 0}
    return dict(system, lines=lines, changes=changes)


def configure(logger, c, processors):
    {'all': logger.log_all_tests, 'last': logger.log_only_last_test, 'none': logger.log_no_tests}[c['which']]()
    logger.is_last_test = c['last']
    if c['products'] == 'all':
        logger.log_products()
    elif c['products'] == 'some':
        logger.log_products(*[processors[i] for i in c['selected']])
    if c['stats']:
        logger.log_stats()


class Spy:
    """writes down what each processor gives back"""
    def __init__(self, processors):
        self.results = []
        for number, p in enumerate(processors):
            p.process = self.wrap(number, p.process)

    def wrap(self, number, process):
        def spied(request):
            result = process(request)
            self.results.append((number, result.error_type, list(result.error_args), list(result.products)))
            return result
        return spied


def picture(product):
    from vlib.transcript import render
    kind = type(product).__name__
    if kind == 'BasicParserProduct':
        return kind + render(product.parse_tree)
    if kind == 'SemanticComposerProduct':
        return kind + render([list(product.semantics_iterations.items()), product.inferences, product.executable, product.return_variables])
    if kind == 'AtomExecutorProduct':
        return kind + render(product.bindings)
    return kind + render(product.get_output())


def mentions(product):
    """texts that must be in the section of this product"""
    kind = type(product).__name__
    if kind == 'BasicParserProduct':
        return forms(product.parse_tree)
    if kind == 'SemanticComposerProduct':
        return predicates([product.get_semantics_last_iteration(), product.inferences, product.executable]) + list(product.return_variables)
    if kind == 'AtomExecutorProduct':
        return [t for b in product.bindings for name, value in b.items() for t in (name, repr(value))]
    return [str(product.get_output())]


def forms(node):
    if node.form != "":
        return [node.form] if node.form.strip() else []
    return [node.category] + [f for c in node.children for f in forms(c)]


def predicates(x):
    if isinstance(x, tuple):
        return [str(x[0])] + [p for a in x[1:] for p in predicates(a)]
    if isinstance(x, list):
        return [p for a in x for p in predicates(a)]
    return []


def plain(entry):
    return re.sub('\033\\[\\d+m', '', entry)


def check_sections(entries, processors, results, detail):
    """the entries must be the sections of these results, in order"""
    names = {p.get_name() for p in processors}
    headers = {i for i, e in enumerate(entries) if plain(e).strip() in names and '\033' in e}
    sections = []
    for i, e in enumerate(entries):
        if i in headers:
            sections.append([plain(e).strip(), ""])
        else:
            expect(sections, "something was recorded before the first section", entry=e, **detail)
            sections[-1][1] += plain(e)
    expect([s[0] for s in sections] == [processors[r[0]].get_name() for r in results], "the logged sections are not those of the selected processors that ran",
           sections=[s[0] for s in sections], ran=[processors[r[0]].get_name() for r in results], **detail)
    for (name, text), (_, error, args, products) in zip(sections, results):
        expect(error in text, "the error of a processor is not in its section", section=text, error=error, **detail)
        position = 0
        for product in products:
            for mention in mentions(product):
                expect(mention in text, "a product is not in the section of its processor", processor=name, missing=mention, section=text, **detail)
        if products and type(products[0]).__name__ == 'BasicParserProduct':
            for product in products:
                shown = str(product.parse_tree).strip()
                found = text.find(shown, position)
                expect(found >= 0, "a parse tree is missing in the section of the parser", tree=shown, section=text, **detail)
                position = found + len(shown)
        elif products and type(products[0]).__name__ == 'LanguageSelectorProduct':
            expect(text.split() == " ".join(p.locale for p in products).split(), "the locales are not in the section", section=text, **detail)


def check(case, rec):
    from richard.core.Logger import Logger, nullLogger

    logger = Logger()
    quiet, logged = make_system(case), make_system(case, logger)
    spies = [Spy(quiet.processors), Spy(logged.processors)]
    state = dict(words={n: n for n in NOUNS}, rules=[])
    shown = failed = unselected = False
    null_before = len(nullLogger.entries)
    for number, (kind, text) in enumerate(case['lines']):
        if number in case['changes']:
            configure(logger, case['changes'][number], logged.processors)
            configuration = {}
            # how a logger is configured adds up
            for i in range(number + 1):
                if i in case['changes']:
                    c = case['changes'][i]
                    configuration.update({k: v for k, v in c.items() if k in ('which', 'last') or (k in ('products', 'selected') and c['products'])
                                          or (k == 'stats' and v)})
        if kind == 'do' and (text.startswith("every") or text.startswith("a ")) and not acceptable(text, state):
            continue
        for spy in spies:
            spy.results.clear()
        before = len(logger.entries)
        wanted = quiet(text)
        found = logged(text)
        detail = dict(text=text, configuration=configuration, lines=case['lines'][:number])
        expect(found == wanted, "logging changed the result of a sentence", with_logging=found, without=wanted, **detail)
        images = [[(r[0], r[1], r[2], [picture(p) for p in r[3]]) for r in spy.results] for spy in spies]
        expect(images[0] == images[1], "logging changed a product", with_logging=images[1], without=images[0], **detail)
        new = logger.entries[before:]
        active = configuration['which'] == 'all' or (configuration['which'] == 'last' and configuration['last'])
        expect(logger.is_active() == active, "the logger is active, or not, against its configuration", active=logger.is_active(), **detail)
        if not active:
            expect(new == [], "an inactive logger recorded something", recorded=new, **detail)
            rec.label('inactive')
            continue
        products = configuration.get('products')
        results = spies[1].results
        selected = [r for r in results if products == 'all' or (products == 'some' and r[0] in configuration['selected'])]
        if products is None:
            expect(new == [], "products were recorded without being asked for", recorded=new, **detail)
        else:
            check_sections(new, logged.processors, selected, detail)
        rec.label(f"{products} products")
        shown = shown or any(r[3] for r in selected)
        failed = failed or any(r[1] for r in selected)
        unselected = unselected or 0 < len(selected) < len(results)
    expect(len(nullLogger.entries) == null_before == 0, "the null logger recorded something", entries=nullLogger.entries)
    str(logger)
    rec.interesting(shown and (failed or unselected))


@st.composite
def tester_cases(draw):
    system = draw(systems())
    lines = draw(st.lists(sentences(), min_size=1, max_size=6))
    if draw(st.integers(0, 3)) == 3:
        # a dialog may end as it began
        lines = lines + [draw(st.sampled_from(lines))]
    return dict(system, lines=lines, configuration=draw(configurations(len(system['blocks']))), wrong=draw(st.sampled_from([None, None, 0, 1, 2, 3])))


def check_tester(case, rec):
    import unittest
    from richard.core.DialogTester import DialogTester
    from richard.core.Logger import Logger

    quiet = make_system(case)
    tests = []
    state = dict(words={n: n for n in NOUNS}, rules=[])
    for kind, text in case['lines']:
        if kind == 'crash' or (kind == 'do' and (text.startswith("every") or text.startswith("a ")) and not acceptable(text, state)):
            continue
        result = quiet(text)
        if result[0] == 'raised' or str(result[2]).startswith('raised'):
            # stop here: what a raising sentence does is up to the tester
            break
        tests.append((text, result[2]))
    wrong = case['wrong'] if case['wrong'] is not None and case['wrong'] < len(tests) else None
    good = list(tests)
    if wrong is not None:
        tests[wrong] = (tests[wrong][0], "something else")
    logger = Logger()
    logged = make_system(case, logger)
    spy = Spy(logged.processors)
    configure(logger, dict(case['configuration'], last=False), logged.processors)
    tester = DialogTester(unittest.TestCase(), tests, logged.system, logger)
    failed = None
    printed = io.StringIO()
    detail = dict(tests=tests, configuration=case['configuration'])
    with contextlib.redirect_stdout(printed):
        try:
            tester.run()
        except AssertionError as e:
            failed = e
    expect((failed is not None) == (wrong is not None), "the tester fails exactly when an answer is not the expected one", failed=str(failed), wrong=wrong, **detail)
    which = case['configuration']['which']
    log = [plain(e) for e in logger.entries]
    text = "\n".join(log)
    ran = tests if wrong is None else tests[:wrong + 1]
    for number, (question, output) in enumerate(ran):
        if which == 'all' and question:
            expect(f"[Human] {question}" in text, "a test is not in the log", question=question, log=log, **detail)
    names = {p.get_name() for p in logged.processors}
    if which == 'none':
        expect(not any(e.strip() in names for e in log) and (wrong is not None or log == []), "a logger that is off recorded something", log=log, **detail)
    if which == 'last' and wrong is None and ran:
        expect(text.count("[Human]") == 1 and f"[Human] {tests[-1][0]}" in text, "not only the last test is in the log", log=log, **detail)
    if wrong is not None:
        expect(str(good[wrong][1]) in text and str(good[wrong][1]) in plain(printed.getvalue()), "the answer of the failing test is not in the log", log=log, **detail)
    rec.label(which, 'failing' if failed else 'passing')
    rec.interesting(len(ran) > 1 and (case['configuration']['products'] is not None or wrong is not None))


# ---------------------------------------------------------------- scripted processors

NAMES = ["Parser", "Parser", "Composer", "Executor", "Language selector", "p", ""]
TEXTS = ["one", "two", "", "one", "Parser", "{}", "%s", "é"]


@st.composite
def scripted_cases(draw):
    count = draw(st.integers(1, 4))
    processors = []
    for _ in range(count):
        results = [dict(products=draw(st.lists(st.sampled_from(TEXTS), min_size=1, max_size=3)), error="") for _ in range(draw(st.integers(1, 3)))]
        for r in results:
            if draw(st.integers(0, 3)) == 3:
                r['error'] = draw(st.sampled_from(["bad", "unknown_word", "x"]))
                r['products'] = draw(st.sampled_from([[], [], r['products']]))
        processors.append(dict(name=draw(st.sampled_from(NAMES)), results=results))
    return dict(processors=processors, blocks=draw(st.lists(st.sampled_from(['FindOne', 'FindAll', 'TryFirst']), min_size=count, max_size=count)),
                configuration=draw(configurations(count)), sentences=draw(st.integers(1, 3)))


def check_scripted(case, rec):
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.Succeed import Succeed
    from richard.block.TryFirst import TryFirst
    from richard.core.Logger import Logger
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeProcessor import SomeProcessor
    kinds = dict(FindOne=FindOne, FindAll=FindAll, TryFirst=TryFirst)
    runs = []

    class Thing:
        def __init__(self, number, text):
            self.number, self.text, self.logged = number, text, 0

        def log(self, logger):
            self.logged += 1
            logger.add(f"product {self.number} {self.text} .")

        def get_output(self):
            return self.text

    class Scripted(SomeProcessor):
        def __init__(self, script, events):
            self.script, self.events, self.turn = script, events, 0

        def get_name(self):
            return self.script['name']

        def process(self, request):
            r = self.script['results'][self.turn % len(self.script['results'])]
            self.turn += 1
            result = ProcessResult([Thing(f"{len(self.events)}-{i}", t) for i, t in enumerate(r['products'])], r['error'], [])
            self.events.append((self, result))
            return result

    for logging in (False, True):
        logger = Logger()
        events = []
        processors = [Scripted(p, events) for p in case['processors']]
        if logging:
            configure(logger, case['configuration'], processors)
        blocks = [kinds[b](p) for b, p in zip(case['blocks'], processors)]
        for a, b in zip(blocks, blocks[1:] + [Succeed(None)]):
            a.next_block = b
        outcomes = []
        for _ in range(case['sentences']):
            request = SentenceRequest("x", logger) if logging else SentenceRequest("x")
            r = blocks[0].process(request)
            outcomes.append((r.error_type, [t.text if (t := request.get_current_product(p)) else None for p in processors],
                             [[t.number for t in request.get_alternative_products(p)] for p in processors]))
        runs.append((outcomes, [(processors.index(p), r.error_type, [t.number for t in r.products]) for p, r in events]))
    detail = dict(configuration=case['configuration'], processors=case['processors'], blocks=case['blocks'])
    expect(runs[0] == runs[1], "logging changed what happened", without=runs[0], with_logging=runs[1], **detail)
    c = case['configuration']
    active = c['which'] == 'all' or (c['which'] == 'last' and c['last'])
    selected = []
    if active and c['products']:
        selected = [(p, r) for p, r in events if c['products'] == 'all' or processors.index(p) in c['selected']]
    text = "".join(plain(e) for e in logger.entries)
    for p, r in events:
        for t in r.products:
            expect(t.logged == (1 if (p, r) in selected else 0), "a product is in the log, or not, against the configuration of the logger", processor=p.get_name(),
                   number=processors.index(p), error=r.error_type, log=text, **detail)
    if not selected:
        expect(text == "", "a logger recorded something that was not asked for", log=text, **detail)
    position = 0
    for p, r in selected:
        for piece in [p.get_name()] + ([r.error_type] if r.error_type else []) + [f"product {t.number} {t.text} ." for t in r.products]:
            found = text.find(piece, position)
            expect(found >= 0, "the log misses something, or has it in another place", missing=piece, log=text, **detail)
            position = found + len(piece)
    names = [p['name'] for p in case['processors']]
    if len(set(names)) < len(names):
        rec.label("equal names")
    rec.label("active" if active else "inactive")
    rec.interesting(0 < len(selected) < len(events) or any(r.error_type and r.products for _, r in selected))


# ---------------------------------------------------------------- statistics

@st.composite
def stats_cases(draw):
    from vlib.queries import Builder, worlds
    data = draw(worlds())
    b = Builder(draw, ['not', 'none', 'scoped', 'det_equals', 'det_greater_than', 'all', 'disjunction', 'disjunction', 'greater_than', 'equals', 'count', 'find_all'],
                depth=2, evars=['?X', '?Y', '?Z'], nvars=['?N', '?M'])
    return dict(data=data, queries=[b.query((1, 4))[0] for _ in range(draw(st.integers(1, 3)))],
                on=draw(st.lists(st.sampled_from([True, True, False]), min_size=4, max_size=4)))


def check_stats(case, rec):
    from richard.core.Logger import Logger
    from richard.core.Solver import Solver
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeProcessor import SomeProcessor
    from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
    from vlib.lang import to_repo
    from vlib.world import keyed, make_model
    class Composer(SomeProcessor):
        def get_name(self):
            return "composer"

        def process(self, request):
            raise NotImplementedError

    asked = []
    model = make_model([[('list', n, a, rows) for n, (a, rows) in case['data'].items()]])
    logging = Solver(model, log_stats=True)
    for number, query in enumerate(case['queries']):
        atoms = to_repo(query)
        wanted = Solver(model).solve(atoms)
        found = logging.solve(atoms)
        expect(repr(found) == repr(wanted), "solving gives other answers when statistics are logged", query=query, previous=case['queries'][:number],
               with_statistics=found, without=wanted, data=case['data'])
        asked.append(query[0][0])
        for predicate in asked:
            expect(logging.stats[predicate] >= asked.count(predicate), "the statistics do not count a predicate that was solved", predicate=predicate, stats=dict(logging.stats))
        rec.interesting(bool(wanted) and len(query) > 1)
    expect(not Solver(model).stats, "statistics without being asked for")

    # the same through the executor, which is used for all sentences of a dialogue
    composer = Composer()
    executor = AtomExecutor(composer, model)
    for number, query in enumerate(case['queries'] + case['queries'][:1]):
        logger = Logger()
        logger.log_all_tests()
        logger.log_products()
        if case['on'][number]:
            logger.log_stats()
        request = SentenceRequest("x", logger)
        request.set_current_product(composer, SemanticComposerProduct({"Semantics": to_repo(query)}, [], [], []))
        result = request.exec_process(executor)
        fresh = Solver(model, log_stats=True)
        wanted = fresh.solve(to_repo(query))
        product, = result.products
        expect(repr(product.bindings) == repr(wanted), "the executor gives other answers than the solver", query=query, found=product.bindings, expected=wanted)
        expect(dict(product.stats) == (dict(fresh.stats) if case['on'][number] else {}), "the statistics are not those of this sentence",
               found=dict(product.stats), expected=dict(fresh.stats), on=case['on'][number], previous=case['queries'][:number])
        text = "\n".join(plain(e) for e in logger.entries)
        for predicate, count in product.stats.items():
            expect(f"{predicate}: {count}" in text, "the statistics are not in the log", predicate=predicate, count=count, log=text)
        expect("Stats" not in text or product.stats, "statistics that were not asked for", log=text)


PARTS = [Part("scripted", scripted_cases, check_scripted, quick=3000, thorough=60000),
         Part("stats", stats_cases, check_stats, quick=2500, thorough=50000),
         Part("dialogues", cases, check, quick=2500, thorough=50000), Part("tester", tester_cases, check_tester, quick=1000, thorough=20000)]
