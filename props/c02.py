"""C02: every sentence is answered or rejected with one accurate report."""
import re

from hypothesis import strategies as st

from vlib.case import expect
from vlib.grammar import Reference, furthest, grammars, make_simple_grammar, texts
from vlib.runner import Part

RULE = ("Random read grammars x texts (sentences, damaged sentences, free unicode, empty, white space); part `report` compares "
        "the parser's report with an independent furthest-position analysis, part `dialog` enters a sequence of texts into a "
        "complete System with the standard English write grammar and compares each output. Non-trivial: a rejected text whose "
        "report position is not the start (report), or a sequence with both accepted and rejected sentences (dialog).")
ASSUMPTIONS = ["same grammar domain as C01", "texts with more than 200 derivations are skipped"]
LIMIT = 200


def any_text(rules):
    # letters that are other letters, although their capitals are the same
    other = texts(rules).map(lambda t: t.replace("i", "\u0131"))
    return st.one_of(texts(rules), texts(rules), texts(rules), other,
                     st.sampled_from(["", " ", "\t\n", "   ", "a  b", "\na"]),
                     st.text(max_size=14))


@st.composite
def cases(draw, n=(1, 4)):
    # words that are also category names: a quoted word and a category are different things
    rules = draw(grammars(optionals=draw(st.booleans()), seps=(' ', '+', '+', '~') if draw(st.booleans()) else (' ', ' ', '+'),
                          words=draw(st.sampled_from([None, ["a", "b", "s", "np", "vp", "ab"]]))))
    return dict(rules=rules, texts=[draw(any_text(rules)) for _ in range(draw(st.integers(*n)))])


def outcome(rules, text):
    """(error type, arguments) by an independent analysis; error type '' when the text has a parse"""
    text = re.sub(r"\s+", " ", text)
    total = Reference(rules, text).total()
    if total > LIMIT:
        return None
    if total > 0 and text:
        return "", []
    position = furthest(rules, text)
    if position < len(text):
        return "unknown_word", [text[position:position + 9] + " ..."]
    if text == "":
        return "no_sentence", []
    return "not_understood", []


def check_report(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    rules = case['rules']
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(make_simple_grammar(rules)))
    for text in case['texts']:
        expected = outcome(rules, text)
        if expected is None:
            rec.label("skipped: too ambiguous")
            continue
        result = parser.process(SentenceRequest(text))
        actual = result.error_type, list(result.error_args)
        if expected[0] == "":
            expect(len(result.products) > 0, "a sentence of the grammar was not parsed", text=text, report=actual)
        else:
            expect(len(result.products) == 0, "a text outside the grammar was parsed", text=text)
        expect(actual == expected, "wrong report for a sentence", text=text, report=actual, expected=expected)
        rec.label(expected[0] or "parsed")
        rec.interesting(expected[0] == "not_understood" or expected[0] == "unknown_word" and furthest(rules, re.sub(r"\s+", " ", text)) > 0)


MESSAGES = {"no_sentence": lambda args: "No sentence given",
            "not_understood": lambda args: "Sorry, I don't understand",
            "unknown_word": lambda args: "Could not understand: " + args[0]}


def check_dialog(case, rec):
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.grammar.en_us_write import get_en_us_write_grammar
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
    from richard.entity.Variable import Variable

    executed = []

    class Module(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("mark", query_function=self.mark))

        def mark(self, values, context):
            executed.append(values[0])
            return [[values[0]]]

    rules = case['rules']
    simple = make_simple_grammar(rules)
    for number, rule in enumerate(simple):
        atoms = [('mark', number), ('store', [('output_type', 'value'), ('output_value', f"did {number}")])]
        rule['sem'] = (lambda a: lambda *args: a)(atoms)
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(simple))
    buffer = BasicOutputBuffer()
    model = Model([Module(), buffer])
    composer = SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    write = [{"syn": "s() -> text(E1)", "if": [('output_type', 'value'), ('output_value', Variable('E1'))]}] + get_en_us_write_grammar()
    generator = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(write), model, buffer)
    system = System(model=model, input_pipeline=[FindOne(parser), TryFirst(composer), TryFirst(executor)], output_generator=generator)

    kinds = set()
    for text in case['texts']:
        expected = outcome(rules, text)
        if expected is None:
            continue
        executed.clear()
        answer = system.enter(SentenceRequest(text))
        output = system.read_output()
        if expected[0]:
            expect(executed == [], "a rejected sentence was executed", text=text, executed=executed)
            expect(answer is None, "a rejected sentence has an answer", text=text, answer=answer)
            message = MESSAGES[expected[0]](expected[1])
            expect(output == message, "wrong output for a rejected sentence", text=text, output=output, expected=message)
        else:
            expect(len(executed) == 1, "an accepted sentence was not executed exactly once", text=text, executed=executed)
            expect(isinstance(answer, list) and len(answer) == 1, "an accepted sentence has no answer", text=text, answer=answer)
            expect(output == f"did {executed[0]}", "wrong output for an accepted sentence", text=text, output=output)
        kinds.add(expected[0])
        rec.label(expected[0] or "accepted")
    rec.interesting("" in kinds and len(kinds) > 1)


PARTS = [Part("report", cases, check_report, quick=4000, thorough=100000),
         Part("dialog", lambda: cases((3, 6)), check_dialog, quick=2000, thorough=40000)]
