"""C15: control blocks explore alternatives exactly as documented."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import freeze
from vlib.runner import Part

RULE = ("Random pipelines of 1 to 5 FindOne / FindAll / TryFirst blocks with scripted processors: what a processor returns (products or "
        "an error with arguments) depends on the current products of all earlier processors, so each processor call is compared with a "
        "model's call, including what it saw; several sentences per system, with output that is read or left in the buffer. "
        "Non-trivial: at least two blocks, and some branch fails while another one is tried.")
ASSUMPTIONS = ["a processor returns an error or at least one product"]

ERRORS = [('err0', []), ('err1', ['a']), ('err1', ["it's"]), ('err1', [5]), ('err1', [0]), ('err1', ['']), ('err2', ['x', 'y']), ('err2', ['?', 1.5]),
          ('err2', [['a'], 'b'])]


@st.composite
def scripts(draw, levels):
    """what the processor at this level does: ('err', number, products) or ['...children scripts...']"""
    if levels == 0:
        return None
    if draw(st.integers(0, 9)) < 3:
        return ('err', draw(st.integers(0, len(ERRORS) - 1)), draw(st.sampled_from([0, 0, 1])))
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    return [draw(scripts(levels - 1)) for _ in range(n)]


@st.composite
def cases(draw):
    levels = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    if draw(st.integers(0, 3)) == 0:
        blocks = [draw(st.sampled_from(['FindOne', 'FindAll']))] * levels
    else:
        blocks = draw(st.lists(st.sampled_from(['FindOne', 'FindOne', 'FindAll', 'TryFirst']), min_size=levels, max_size=levels))
    steps = [dict(script=draw(scripts(levels)), read=draw(st.booleans())) for _ in range(draw(st.integers(1, 3)))]
    # the names of the processors are for the log only
    names = draw(st.sampled_from([['P1', 'P2', 'P3', 'P4', 'P5'], ['P'] * 5, ['P', 'P', 'Q', 'P', 'Q'], [''] * 5]))
    # products may be equal to each other, or look empty, and are still alternatives of their own
    return dict(blocks=blocks, steps=steps, names=names, looks=draw(st.sampled_from(['own', 'own', 'equal', 'empty'])))


class Model:
    def __init__(self, blocks):
        self.blocks = blocks
        self.calls = []
        self.current = [None] * len(blocks)
        self.alternatives = [[] for _ in blocks]

    def run(self, script, path):
        """the error of this level, or None"""
        level = len(path)
        if level == len(self.blocks):
            return None
        self.calls.append((level, tuple(path)))
        if isinstance(script, tuple):
            return script[1]
        kind = self.blocks[level]
        names = [path + [i] for i in range(len(script))]
        self.alternatives[level] += names
        first, success = None, False
        for name, child in zip(names, script):
            self.current[level] = name
            error = self.run(child, name)
            if error is None:
                success = True
                if kind == 'FindOne':
                    return None
            elif first is None:
                first = error
            if kind == 'TryFirst':
                return error
        return None if success else first


def check(case, rec):
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Model import Model as RichardModel
    from richard.core.System import System
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeModule import SomeModule
    from richard.interface.SomeProcessor import SomeProcessor

    class Product:
        def __init__(self, path):
            self.path = path

        def get_output(self):
            return ('output', tuple(self.path))

        def __eq__(self, other):
            return isinstance(other, Product) and (case['looks'] == 'equal' or self is other)

        def __hash__(self):
            return 1

        def __bool__(self):
            return case['looks'] != 'empty'

        def log(self, logger):
            pass

    class Scripted(SomeProcessor):
        def __init__(self, level):
            self.level = level

        def get_name(self):
            return case['names'][self.level]

        def process(self, request):
            seen = [request.get_current_product(p) for p in processors[:self.level]]
            paths = [p.path if p is not None else None for p in seen]
            # the path so far, as told by the current products of all earlier processors
            path = tuple(paths[-1]) if paths and paths[-1] is not None else ()
            calls.append((self.level, path))
            expect([list(path[:i + 1]) for i in range(self.level)] == paths,
                   "a processor does not see the alternatives being tried by the earlier processors", level=self.level, seen=paths)
            node = script
            for i in path:
                node = node[i]
            if isinstance(node, tuple):
                kind, args = ERRORS[node[1]]
                return ProcessResult([Product(None)] * node[2], kind, list(args))
            return ProcessResult([Product(list(path) + [i]) for i in range(len(node))], "")

    class Output(SomeModule):
        """records what is stored"""
        def __init__(self):
            super().__init__()
            self.rows = []
            for name, arguments in (('output_type', ['a']), ('output_err0', []), ('output_err1', ['a']), ('output_err2', ['a', 'b'])):
                self.add_relation(Relation(name, arguments=arguments, query_function=lambda v, c: [], write_function=self.write))

        def write(self, values, context):
            self.rows.append((context.relation.predicate,) + tuple(values))

    kinds = dict(FindOne=FindOne, FindAll=FindAll, TryFirst=TryFirst)
    processors = [Scripted(n) for n in range(len(case['blocks']))]
    output = Output()
    system = System(model=RichardModel([output]), input_pipeline=[kinds[b](p) for b, p in zip(case['blocks'], processors)])
    wanted_rows = []
    for step in case['steps']:
        script = step['script']
        calls = []
        model = Model(case['blocks'])
        error = model.run(script, [])
        request = SentenceRequest("text")
        result = system.enter(request)
        expect(calls == model.calls, "the alternatives are not tried in the documented way", blocks=case['blocks'], script=script,
               tried=calls, expected=model.calls)
        if error is None:
            wanted = ('output', tuple(model.current[-1]))
            expect(result == wanted, "success does not return the output of the last processor's current product", result=result, expected=wanted)
        else:
            kind, args = ERRORS[error]
            wanted_rows += [('output_type', kind), ('output_' + kind,) + tuple(args)]
            expect(result is None, "a failed sentence returned a result", result=result)
        expect(freeze(output.rows) == freeze(wanted_rows), "the stored error is not the documented one", stored=output.rows, expected=wanted_rows,
               blocks=case['blocks'], script=script)
        for n, p in enumerate(processors):
            current = request.get_current_product(p)
            expect((current.path if current is not None else None) == model.current[n], "wrong current product afterwards", level=n)
            if set(case['blocks'][:n + 1]) == {'FindAll'}:
                found = [x.path for x in request.get_alternative_products(p)]
                expect(found == model.alternatives[n], "FindAll does not keep all alternatives, each once", level=n, found=found, expected=model.alternatives[n])
        if step['read']:
            output.rows, wanted_rows = [], []
        branches = len({c for c in model.calls})
        rec.label("success" if error is None else "failure", f"{len(case['blocks'])} blocks", f"{min(branches, 6)} calls")
        rec.interesting(len(case['blocks']) > 1 and branches > 2 and "err" in repr(script))


PARTS = [Part("pipelines", cases, check, quick=6000, thorough=200000)]
