"""C09: aggregates and collections agree with the solutions of their body."""
import math

from hypothesis import strategies as st

from vlib.case import expect, fail
from vlib.lang import from_repo, is_var, to_repo
from vlib.many import chains, many_facts
from vlib.queries import Builder, ENTITIES, NUMBERS, worlds
from vlib.refsolver import Ref, same_number
from vlib.runner import Part
from vlib.world import distinct, keyed, make_model

RULE = ("Part `aggregate`: random worlds with duplicates, ties, negative and fractional numbers; one aggregate or collection "
        "predicate over a random body (nested constructs included) under a random binding, its result compared with the value "
        "computed by an independent evaluator (ties: any extreme entity; collections: order of the body's own solutions). Part `large`: the same over hundreds of facts with repeated values. Part "
        "`scalar`: comparison and arithmetic over random Python values. Part `counted`: bodies whose relation offers a counted "
        "iterator that must not be enumerated. Non-trivial: the body has at least two solutions (aggregate), the operands differ "
        "(scalar), the count exceeds 1000 (counted).")
ASSUMPTIONS = ["the result variable of find_all and find_one is unbound", "a variable that is None in an answer is unbound", "sums and means are compared with a relative tolerance of 1e-9"]

AGGREGATES = ['count', 'sum', 'avg', 'percentage', 'arg_min', 'arg_max', 'find_all', 'find_all', 'find_one', 'find_one']
NESTED = ['not', 'scoped', 'greater_than', 'less_than', 'disjunction', 'count', 'det_greater_than']


@st.composite
def aggregates(draw):
    data = draw(worlds(max_rows=8))
    bound = draw(st.sampled_from([[], [], [], ['X'], ['Y'], ['N'], ['X', 'N']]))
    binding = {v: draw(st.sampled_from(ENTITIES[:3] if v != 'N' else NUMBERS)) for v in bound}
    b = Builder(draw, NESTED, depth=draw(st.sampled_from([0, 1, 1, 2])), evars=['?X', '?Y', '?Z'], nvars=['?N', '?M'], consts=draw(st.booleans()))
    known = {'?' + v for v in bound}
    if draw(st.integers(0, 5)) == 0:
        # the result is known already
        binding['Result'] = draw(st.sampled_from([0, 1, 2, 3, 2.5, 50.0, 100.0]))
    name = draw(st.sampled_from(AGGREGATES))
    result = draw(st.sampled_from(['?Result'] * 5 + [0, 1, 2, 3, 'a']))
    if name in ('sum', 'avg', 'arg_min', 'arg_max'):
        free = [v for v in ('?N', '?M') if v not in known] or ['?K']
        n = draw(st.sampled_from(free))
        e = draw(st.sampled_from(['?X', '?X', '?Y']))
        atoms = [(draw(st.sampled_from(['age', 'size'])), e, n)]
        if draw(st.booleans()):
            more, _ = b.body(known | {e, n}, b.depth, prefer=[e])
            atoms = atoms + more
        if draw(st.integers(0, 2)) == 0:
            atoms = [(draw(st.sampled_from(['p', 'q'])), e)] + atoms
        atom = (name, result, n, atoms) if name in ('sum', 'avg') else (name, e, n, atoms)
    elif name == 'percentage':
        top, _ = b.body(known, b.depth)
        bottom, _ = b.body(known, b.depth)
        atom = (name, result, top, bottom)
    else:
        atoms, inside = b.body(known, b.depth, size=(1, 3))
        if name == 'count':
            atom = (name, result, atoms)
        else:
            named = sorted(v[1:] for v in inside) or ['X']
            pick = draw(st.sampled_from(['one', 'one', 'list']))
            if pick == 'one':
                what = draw(st.sampled_from(named))
            else:
                what = draw(st.lists(st.sampled_from(named), min_size=1, max_size=3))
            atom = (name, what, atoms, '?Result')
    if name.startswith('find') or atom[1] != '?Result':
        binding.pop('Result', None)
    return dict(data=data, binding=binding, atom=atom)


def value(term, binding):
    return binding.get(term[1:]) if is_var(term) else term


def is_in(x, xs):
    return any(x == y for y in xs)


def check_aggregate(case, rec):
    from richard.core.Solver import Solver
    data, binding, atom = case['data'], case['binding'], case['atom']
    model = make_model([[('list', n, a, rows) for n, (a, rows) in data.items()]])
    solver = Solver(model)
    ref = Ref({n: rows for n, (a, rows) in data.items()})
    name = atom[0]
    body = {'count': 2, 'sum': 3, 'avg': 3, 'arg_min': 3, 'arg_max': 3, 'percentage': 2, 'find_all': 2, 'find_one': 2}[name]
    solutions = ref.solve(atom[body], binding)
    given = to_repo(atom)
    actual = solver.solve([given], dict(binding))
    expect(from_repo(given) == atom, "solving changed the atom", atom=atom)
    expect(isinstance(actual, list) and all(isinstance(x, dict) for x in actual), "solve did not return a list of bindings", answers=actual)
    # None stands for unbound: the element variable of sum and avg gets no value
    actual = [{k: v for k, v in x.items() if v is not None} for x in actual]
    details = dict(atom=atom, binding=binding, facts={n: rows for n, (a, rows) in data.items()}, answers=actual, solutions=solutions)

    def one(**values):
        """exactly one answer: the binding extended with these values"""
        expect(isinstance(actual, list) and len(actual) == 1, f"{name} does not have exactly one answer", **details)
        want = {**binding, **values}
        expect(actual[0].keys() == want.keys() and all(same_number(actual[0][k], want[k]) for k in want),
               f"wrong answer of {name}", expected=want, **details)

    def scalar(v):
        if is_var(atom[1]) and atom[1][1:] in binding:
            if same_number(binding[atom[1][1:]], v):
                one()
            else:
                expect(actual == [], f"{name} agrees with a number that it is not", expected=v, **details)
        elif is_var(atom[1]):
            one(**{atom[1][1:]: v})
        elif same_number(atom[1], v):
            one()
        else:
            expect(actual == [], f"{name} equals a constant that it is not", expected=v, **details)

    if name == 'count':
        scalar(len(solutions))
    elif name == 'sum':
        scalar(sum(s[atom[2][1:]] for s in solutions))
    elif name == 'avg':
        if solutions:
            scalar(math.fsum(s[atom[2][1:]] for s in solutions) / len(solutions))
        else:
            expect(actual == [], "avg over nothing does not fail", **details)
    elif name == 'percentage':
        bottom = ref.solve(atom[3], binding)
        if bottom:
            scalar(100.0 * len(solutions) / len(bottom))
        else:
            expect(actual == [], "percentage of nothing does not fail", **details)
    elif name in ('arg_min', 'arg_max'):
        if not solutions:
            expect(actual == [], f"{name} over nothing does not fail", **details)
        else:
            e, n = atom[1][1:], atom[2][1:]
            best = (min if name == 'arg_min' else max)(s[n] for s in solutions)
            winners = [s[e] for s in solutions if s[n] == best]
            expect(isinstance(actual, list) and len(actual) == 1, f"{name} does not have exactly one answer", **details)
            expect(actual[0].keys() == binding.keys() | {e, n} and actual[0][n] == best and is_in(actual[0][e], winners)
                   and all(actual[0][k] == v for k, v in binding.items()),
                   f"wrong answer of {name}", best=best, winners=winners, **details)
            if len(set(winners)) > 1:
                rec.label("tie")
    else:
        own = solver.solve(to_repo(atom[2]), dict(binding))
        expect(keyed(own) == keyed(solutions), "wrong answers of the body", **details)
        items = []
        for s in own:
            if not isinstance(atom[1], list) and atom[1] not in s:
                continue
            item = [s.get(v) for v in atom[1]] if isinstance(atom[1], list) else s[atom[1]]
            if item not in items:
                items.append(item)
        if name == 'find_all':
            expect(isinstance(actual, list) and len(actual) == 1 and actual[0] == {**binding, 'Result': items}, "wrong list", expected=items, **details)
        elif not items:
            expect(actual == [], "find_one of nothing does not fail", **details)
        else:
            expect(isinstance(actual, list) and len(actual) == 1 and actual[0] == {**binding, 'Result': items[0]}, "find_one is not the first", expected=items[0], **details)
        if len(items) < len(own):
            rec.label("duplicates removed")
    rec.label(name + (" empty" if not solutions else ""))
    rec.interesting(len(solutions) > 1)


SCALARS = [0, 1, -1, 2, 7, 10**20, 0.5, -2.25, 1.0, 3.0, 1e300, 0.1]
TEXTS = ["", "a", "b", "ab", "B", "é", "10", "9"]


@st.composite
def scalars(draw):
    name = draw(st.sampled_from(['equals', 'greater_than', 'less_than', 'multiply']))
    pool = SCALARS if name == 'multiply' or draw(st.booleans()) else TEXTS
    number = st.sampled_from(pool) | (st.integers(-50, 50) if pool is SCALARS else st.text(max_size=3))
    a, b = draw(number), draw(number)
    if draw(st.integers(0, 4)) == 0:
        b = a
    if name == 'equals' and draw(st.integers(0, 3)) == 0:
        b = draw(st.sampled_from(SCALARS + TEXTS))
    result = draw(st.sampled_from(['?R', '?R', 'right', 'wrong']))
    how = draw(st.sampled_from(['cc', 'cv', 'vc', 'vv', 'vv', 'uv', 'vu', 'uc', 'cu', 'uu']))
    return dict(name=name, a=a, b=b, how=how, result=result, bound=draw(st.booleans()))


def check_scalar(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Variable import Variable
    name, a, b, how = case['name'], case['a'], case['b'], case['how']
    binding = {'Other': 'kept'}
    terms = []
    for kind, variable, v in ((how[0], 'A', a), (how[1], 'B', b)):
        if kind == 'c':
            terms.append(v)
        else:
            terms.append(Variable(variable))
            if kind == 'v':
                binding[variable] = v
    solver = Solver(Model([]))
    atom = (name, *terms)
    answer = {**binding}
    if name == 'multiply':
        product = a * b
        target = Variable('R') if case['result'] == '?R' else product if case['result'] == 'right' else product + 1 if product + 1 != product else 0
        atom = atom + (target,)
        expected = [{**binding, 'R': product}] if case['result'] == '?R' else [binding] if target == product else []
        if case['result'] != '?R' and 'u' not in how and case['bound']:
            # the same through a bound variable
            binding['R'] = target
            atom = atom[:3] + (Variable('R'),)
            expected = [binding] if target == product else []
    elif name == 'equals':
        expected = [binding] if a == b else []
        if how[0] == 'u':
            expected = [{**binding, 'A': b}]
        elif how[1] == 'u':
            expected = [{**binding, 'B': a}]
    else:
        expected = [binding] if (a > b if name == 'greater_than' else a < b) else []
    unusable = 'u' in how and (name != 'equals' or how == 'uu')
    try:
        actual = solver.solve([atom], dict(binding))
    except Exception as e:
        if unusable:
            rec.label(name + " refused")
            return
        raise
    if unusable:
        fail(f"{name} answers although an operand is unbound", atom=atom, binding=binding, answers=actual)
    expect(actual == expected and [[type(v) for v in x.values()] for x in actual] == [[type(v) for v in x.values()] for x in expected],
           f"{name} differs from Python", atom=atom, binding=binding, answers=actual, expected=expected)
    rec.label(name + (" true" if expected else " false"))
    rec.interesting(a != b)


@st.composite
def counted(draw):
    n = draw(st.sampled_from([0, 1, 2, 999, 1001, 10**6, 10**9, 10**12]))
    name = draw(st.sampled_from(['count', 'det_equals', 'det_greater_than', 'det_less_than', 'not', 'none', 'scoped', 'percentage', 'percentage', 'nested']))
    return dict(n=n, m=draw(st.sampled_from([0, 1, 10, 2 * 10**6])), name=name, number=draw(st.sampled_from([n, n, max(n - 1, 0), n + 1, 3])),
                binding=draw(st.sampled_from([{}, {'X': 'a'}])))


def check_counted(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.ResultIterator import ResultIterator
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule

    class Quiet(ResultIterator):
        def __next__(self):
            fail("a counted iterator was enumerated", case=case)

    class M(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("big", query_function=lambda v, c: Quiet([None, None], case['n'])))
            self.add_relation(Relation("other", query_function=lambda v, c: Quiet([None], case['m'])))

    n, m, number, name, binding = case['n'], case['m'], case['number'], case['name'], case['binding']
    body = [('big', Variable('X'), Variable('Y'))]
    solver = Solver(Model([M()]))
    truth = None
    if name == 'count':
        atom, expected = ('count', Variable('R'), body), {'R': n}
    elif name == 'percentage':
        atom, expected = ('percentage', Variable('R'), body, [('other', Variable('Z'))]), ({'R': 100.0 * n / m} if m else None)
    elif name in ('not', 'none'):
        atom, expected = (name, body), ({} if n == 0 else None)
    elif name == 'scoped':
        atom, expected = (name, body), ({} if n else None)
    elif name == 'nested':
        atom, expected = ('not', [('scoped', [('det_equals', body, number)])]), ({} if n != number else None)
    else:
        truth = n == number if name == 'det_equals' else n > number if name == 'det_greater_than' else n < number
        atom, expected = (name, body, number), ({} if truth else None)
    actual = solver.solve([atom], dict(binding))
    want = [] if expected is None else [{**binding, **expected}]
    expect(len(actual) == len(want) and all(x.keys() == y.keys() and all(same_number(x[k], y[k]) for k in y) for x, y in zip(actual, want)),
           f"wrong result of {name} over a counted iterator", n=n, m=m, number=number, answers=actual, expected=want)
    rec.label(name)
    rec.interesting(n > 1000)


@st.composite
def large(draw):
    data = draw(many_facts())
    name = draw(st.sampled_from(AGGREGATES + ['find_all']))
    binding = draw(st.sampled_from([{}, {}, {}, {'X': 'e3'}]))
    if name in ('sum', 'avg', 'arg_min', 'arg_max'):
        body = draw(chains(data, needs=('?X', '?N')))
        atom = (name, '?Result', '?N', body) if name in ('sum', 'avg') else (name, '?X', '?N', body)
    elif name == 'percentage':
        atom = (name, '?Result', draw(chains(data)), draw(chains(data)))
    elif name == 'count':
        atom = (name, '?Result', draw(chains(data)))
    else:
        body = draw(chains(data, needs=('?X',)))
        what = sorted({t[1:] for a in body for t in a if t[0:1] == '?'})
        atom = (name, draw(st.sampled_from(what + [what, what[::-1]])), body, '?Result')
    return dict(data=data, binding=binding, atom=atom)


PARTS = [Part("large", large, check_aggregate, quick=1000, thorough=12000, shards=8, steps=100_000_000),
         Part("aggregate", aggregates, check_aggregate, quick=7000, thorough=150000),
         Part("scalar", scalars, check_scalar, quick=3000, thorough=40000),
         Part("counted", counted, check_counted, quick=1500, thorough=10000, steps=200000)]
