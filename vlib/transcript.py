"""
A process that runs given cases of other checks and reports everything the code under test gave back at its public seams.
Started by props/c22.py with different string-hash seeds; answers one line of JSON per request line.
"""
import ast
import importlib
import json
import sys

MAX_ENTRIES = 400
LOG = []
DEPTH = [0]


def render(x, depth=0):
    """text that does not depend on addresses, hashes or the order of keys"""
    from richard.entity.ParseTreeNode import ParseTreeNode
    from richard.entity.ReifiedVariable import ReifiedVariable
    from richard.entity.Variable import Variable
    if isinstance(x, Variable):
        return '?' + x.name
    if isinstance(x, ReifiedVariable):
        return '!' + x.name
    if isinstance(x, ParseTreeNode):
        return str(x.rule) + '{' + " ".join(repr(c.form) if c.form != "" else render(c) for c in x.children) + '}'
    if x is None or isinstance(x, (str, int, float, bool)):
        return repr(x)
    if isinstance(x, (set, frozenset)):
        return 'set' + str(sorted(render(y) for y in x))
    if isinstance(x, dict):
        return '{' + ", ".join(sorted(render(k) + ': ' + render(v) for k, v in x.items())) + '}'
    if depth > 30:
        return '...'
    if isinstance(x, (list, tuple)):
        body = ", ".join(render(y, depth + 1) for y in x)
        return '[' + body + ']' if isinstance(x, list) else '(' + body + ')'
    return '<' + type(x).__name__ + '>'


def note(what, value):
    if len(LOG) < MAX_ENTRIES:
        LOG.append(what + ' ' + (value if isinstance(value, str) else render(value)))


def wrap(cls, method, what, describe, outermost=False):
    original = getattr(cls, method)

    def wrapped(self, *args, **kw):
        DEPTH[0] += 1
        try:
            result = original(self, *args, **kw)
        except Exception as e:
            if DEPTH[0] == 1 or not outermost:
                note(what, f"raises {type(e).__name__}: {e}" if ' at 0x' not in str(e) else f"raises {type(e).__name__}")
            raise
        finally:
            DEPTH[0] -= 1
        if DEPTH[0] == 0 or not outermost:
            note(what, describe(result))
        return result
    setattr(cls, method, wrapped)


def trees(result):
    return [result.error_type, result.error_args, [p.parse_tree for p in result.products]]


def compositions(result):
    return [result.error_type, result.error_args,
            [[list(p.semantics_iterations.items()), p.inferences, p.executable, p.return_variables] for p in result.products]]


def install():
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Solver import Solver
    from richard.core.System import System
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
    wrap(BasicParser, 'process', 'parse', trees)
    wrap(SemanticComposer, 'process', 'compose', compositions)
    wrap(BasicQueryOptimizer, 'optimize', 'optimise', lambda r: list(r.items()))
    wrap(AtomExecutor, 'process', 'execute', lambda r: [r.error_type, r.error_args, [p.bindings for p in r.products]])
    wrap(Solver, 'solve', 'solve', lambda r: r, outermost=True)
    wrap(System, 'enter', 'enter', lambda r: r)
    wrap(BasicGenerator, 'generate_output', 'output', lambda r: r)
    wrap(SimpleInferenceRuleParser, 'parse', 'rules', lambda r: [[rule.head, rule.body] for rule in r[0]] if isinstance(r, tuple) and r[0] else repr(type(r)))
    for source in (SimpleDataSource, Sqlite3DataSource, SparqlDataSource):
        wrap(source, 'select', 'select', lambda r: r, outermost=True)


def serve():
    from vlib.case import Discard, Known, Rec, Violation, run_case
    install()
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        prop, part_name, text, times = json.loads(line)
        part = next(p for p in importlib.import_module("props." + prop.lower()).PARTS if p.name == part_name)
        answers = []
        for _ in range(times):
            del LOG[:]
            DEPTH[0] = 0
            try:
                run_case(part.check, ast.literal_eval(text), Rec(), part.steps)
                end = "end"
            except (Violation, Discard, Known) as e:
                end = type(e).__name__
            except Exception as e:
                end = "harness " + type(e).__name__
            answers.append(LOG + [end])
        out.write(json.dumps(answers) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
