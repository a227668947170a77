"""C08: quantifiers, negation, scope and disjunction mean what they say."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import from_repo, to_repo
from vlib.many import chains, many_facts
from vlib.queries import Builder, ENTITIES, worlds
from vlib.refsolver import Ref, bindings_equal
from vlib.runner import Part
from vlib.world import make_model

RULE = ("Random worlds (entities, numbers, seven relations) with random queries in which not / none / scoped / det_equals / "
        "det_greater_than / det_less_than / all / disjunction / comparisons are nested up to depth three and followed by atoms "
        "that reuse the same variable names; part `single` asks for one construct under an initial binding, part `large` over hundreds of facts. Compared with an "
        "independent evaluator. Non-trivial: at least one nested construct was evaluated and it is not the outcome that every "
        "query of the kind has (an answer exists).")
ASSUMPTIONS = ["comparisons only on bound numbers", "`all` quantifies over a variable"]

SCOPED = ['not', 'none', 'scoped', 'det_equals', 'det_greater_than', 'det_less_than', 'all', 'disjunction']


@st.composite
def nested(draw):
    data = draw(worlds())
    b = Builder(draw, SCOPED + ['greater_than', 'less_than', 'equals'], depth=3, evars=['?X', '?Y', '?Z'], nvars=['?N', '?M'], bound_all=True)
    atoms, _ = b.query((1, 4))
    return dict(data=data, atoms=atoms, binding={})


@st.composite
def single(draw):
    data = draw(worlds())
    bound = draw(st.lists(st.sampled_from(['X', 'Y']), max_size=2, unique=True))
    binding = {v: draw(st.sampled_from(ENTITIES[:3])) for v in bound}
    kind = draw(st.sampled_from(SCOPED))
    b = Builder(draw, [kind], depth=1, evars=['?X', '?Y', '?Z'], nvars=['?N'], bound_all=True)
    atoms = []
    for _ in range(10):
        atom, after = b.atom({'?' + v for v in bound}, 1)
        if atom[0] in SCOPED or atom[0] == '$disjunction':
            break
    atoms.append(atom)
    if draw(st.booleans()):
        atoms.append(b.relation(after)[0])
    return dict(data=data, atoms=atoms, binding=binding)


def constructs(x, out):
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        out.append(x[0])
    if isinstance(x, (tuple, list)):
        for y in x:
            constructs(y, out)
    return out


def check(case, rec):
    from richard.core.Solver import Solver
    data = case['data']
    model = make_model([[('list', n, a, rows) for n, (a, rows) in data.items()]])
    atoms = to_repo(case['atoms'])
    binding = dict(case['binding'])
    expected = Ref({n: rows for n, (a, rows) in data.items()}).solve(case['atoms'], case['binding'])
    result = Solver(model).solve(atoms, binding)
    expect(isinstance(result, list) and all(isinstance(r, dict) for r in result), "solve did not return a list of bindings", result=result)
    expect(bindings_equal(result, expected), "wrong answers", atoms=case['atoms'], binding=case['binding'],
           facts={n: rows for n, (a, rows) in data.items()}, answers=result, expected=expected)
    expect(binding == case['binding'] and from_repo(atoms) == case['atoms'], "solving changed its input", atoms=case['atoms'])
    used = [c for c in constructs(case['atoms'], []) if c in SCOPED or c == '$disjunction']
    for c in set(used):
        rec.label(c + (" true" if expected else " false"))
    if len(used) > 1:
        rec.label("several constructs")
    rec.interesting(bool(used) and bool(expected))


@st.composite
def large(draw):
    data = draw(many_facts())
    body = draw(chains(data))
    binding = draw(st.sampled_from([{}, {}, {'X': 'e3'}, {'Y': 'e1'}]))
    kind = draw(st.sampled_from(['not', 'none', 'scoped', 'det_equals', 'det_greater_than', 'det_less_than', 'all', 'all', 'each', 'disjunction']))
    if kind.startswith('det'):
        found = len(Ref({n: rows for n, (a, rows) in data.items()}).solve(body, binding))
        atoms = [(kind, body, max(0, found + draw(st.integers(-2, 2))))]
    elif kind == 'all':
        atoms = [('all', '?X', [('r', '?X', draw(st.sampled_from(['?Y', 'e1'])))], draw(st.sampled_from([[('age', '?X', '?N')], [('r', '?Y2', '?X')], [('p', '?X')], [('not', [('r', '?X', '?X')])]])))]
        binding = {k: v for k, v in binding.items() if k != 'X'}
    elif kind == 'each':
        # for every single one
        atoms = [('p', '?X'), (draw(st.sampled_from(['not', 'scoped', 'none'])), [('r', '?X', '?Y'), ('p', '?Y')])]
    elif kind == 'disjunction':
        atoms = [('$disjunction', [[('r', '?X', '?X'), ('p', '?X')], body])]
    else:
        atoms = [(kind, body)]
    return dict(data=data, atoms=atoms, binding=binding)


PARTS = [Part("large", large, check, quick=800, thorough=12000, shards=8, steps=100_000_000),
         Part("single", single, check, quick=6000, thorough=120000),
         Part("nested", nested, check, quick=5000, thorough=150000)]
