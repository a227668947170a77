"""C29: a dialog test passes exactly when every sentence gets the expected output."""
import contextlib
import io
import re

from hypothesis import strategies as st

from vlib.case import expect
from vlib.runner import Part
from props import c26

RULE = ("Part `scripted`: random dialog tests through `DialogTester` on a real System whose processor and generator are scripted: outputs of all kinds, "
        "expected or not, systems without generator, sentences that raise (in the pipeline or when writing output), every logger configuration, "
        "with and without profiling. Part `real`: the dialogues of C26. The test must fail exactly when an output differs, with the first difference, after "
        "asking exactly the sentences up to there, each once and in order; errors must come through unchanged. Non-trivial: the test failed or raised after at "
        "least one sentence that went well, or passed with at least three.")
ASSUMPTIONS = ["outputs are compared with =="]

OUTPUTS = ["yes", "no", "", "Yes", "yes ", 0, 1, None, [], ["a"], "None", "0", "it's\nme", "é", "{}", "%s"]
TEXTS = ["who?", "what?", "", "who?", "é{}%s", "go on", "a\nb"]


@st.composite
def scripted(draw):
    lines = []
    for _ in range(draw(st.integers(0, 6))):
        output = draw(st.sampled_from(OUTPUTS))
        how = draw(st.sampled_from(['good'] * 8 + ['bad', 'bad', 'raise', 'raise output']))
        wrong = draw(st.sampled_from([o for o in OUTPUTS if o != output]))
        lines.append(dict(text=draw(st.sampled_from(TEXTS)), output=output, expected=wrong if how == 'bad' else output, how=how))
    return dict(lines=lines, generator=draw(st.sampled_from([True, True, True, False])), which=draw(st.sampled_from(['all', 'last', 'last', 'none'])),
                products=draw(st.booleans()), profile=draw(st.sampled_from([False, False, False, True])), again=draw(st.booleans()),
                rejected=draw(st.booleans()))


class Boom(Exception):
    pass


def check_scripted(case, rec):
    import unittest
    from richard.block.FindOne import FindOne
    from richard.core.DialogTester import DialogTester
    from richard.core.Logger import Logger
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.ProcessResult import ProcessResult
    from richard.interface.SomeProcessor import SomeProcessor
    events = []
    turn = [0]

    class Product:
        def get_output(self):
            return "product"

        def log(self, logger):
            logger.add("product")

    class Script(SomeProcessor):
        def get_name(self):
            return "Script"

        def process(self, request):
            line = case['lines'][turn[0] % len(case['lines'])]
            turn[0] += 1
            events.append(('asked', request.text))
            if line['how'] == 'raise':
                raise Boom(line['text'])
            return ProcessResult([Product()], "")

    class Generator:
        def generate_output(self):
            line = case['lines'][(turn[0] - 1) % len(case['lines'])]
            events.append(('output', line['text']))
            if line['how'] == 'raise output':
                raise Boom(line['text'])
            return line['output']

        def clear_output(self):
            pass

    system = System(model=Model([]), input_pipeline=[FindOne(Script())], output_generator=Generator() if case['generator'] else None)
    logger = Logger()
    {'all': logger.log_all_tests, 'last': logger.log_only_last_test, 'none': logger.log_no_tests}[case['which']]()
    if case['products']:
        logger.log_products()
    tests = [(line['text'], line['expected'] if case['generator'] or line['how'] == 'bad' else '') for line in case['lines']]
    wanted, outcome, good = [], 'passes', 0
    for line, (text, expected) in zip(case['lines'], tests):
        wanted.append(('asked', text))
        if line['how'] == 'raise':
            outcome = Boom
            break
        if case['generator']:
            wanted.append(('output', text))
            if line['how'] == 'raise output':
                outcome = Boom
                break
        if (line['output'] if case['generator'] else '') != expected:
            outcome = AssertionError
            break
        good += 1
    before = list(tests)
    for attempt in range(2 if case['again'] and outcome == 'passes' else 1):
        del events[:]
        turn[0] = 0
        tester = DialogTester(unittest.TestCase(), tests, system, logger, case['profile'])
        printed, got = io.StringIO(), 'passes'
        with contextlib.redirect_stdout(printed):
            try:
                tester.run()
            except (AssertionError, Boom) as e:
                got = type(e) if type(e) is Boom else AssertionError
                error = e
        detail = dict(tests=tests, lines=case['lines'], generator=case['generator'])
        expect(got == outcome, "a dialog test has another outcome", outcome=got, expected=outcome, **detail)
        expect(events == wanted, "the test did not ask each sentence once, up to the first that goes wrong", events=events, expected=wanted, **detail)
        expect(tests == before, "the tests were changed", tests=tests)
        if outcome == Boom:
            expect(str(error) == case['lines'][good]['text'], "another error came out", error=repr(error), **detail)
        if outcome == AssertionError:
            shown = str(case['lines'][good]['output'] if case['generator'] else '')
            expect(re.sub(r"\x1b\[\d*m", "", printed.getvalue()).find(shown) >= 0, "the output that is wrong is not printed", printed=printed.getvalue(), **detail)
        if outcome == 'passes' and case['which'] == 'none':
            expect(logger.entries == [], "a logger that is off recorded something", log=logger.entries)
    rec.label(outcome if outcome == 'passes' else outcome.__name__, "profile" if case['profile'] else case['which'])
    rec.interesting((outcome != 'passes' and good > 0) or good > 2)


PARTS = [Part("scripted", scripted, check_scripted, quick=3000, thorough=40000)] + \
        [Part("real", p.strategy, p.check, quick=600, thorough=8000) for p in c26.PARTS if p.name == 'tester']
