"""C31: the query optimiser plans as Warren prescribes."""
from fractions import Fraction

from hypothesis import strategies as st

from vlib import chat80
from vlib.case import Discard, expect
from vlib.lang import from_repo, is_var, to_repo, variables
from vlib.runner import Part
from props import c13, c30

RULE = ("Part `plans`: random meanings (relations with declared sizes, sizes to be ignored, zero, several modules or no module at all; built-in "
        "constructs with nested atoms to depth 3, disjunctions, name resolution at every depth; up to 7 atoms per list) and root variables; the plan must "
        "be that of a reference planner written from Warren's description. Part `executable`: the same for the executable meanings of C13. Part "
        "`application`: questions to Chat-80, composed with and without the optimiser. Non-trivial: the plan has another order than the meaning, and "
        "an isolated part.")
ASSUMPTIONS = ["the alternatives of a disjunction keep the order of their atoms"]

INFINITE = 10**12
BUILT_IN = {'equals', 'greater_than', 'less_than', 'multiply', 'arg_min', 'arg_max', 'sum', 'avg', 'percentage', 'count', 'not', 'let', 'det_equals',
            'det_greater_than', 'det_less_than', 'all', 'none', 'scoped', 'store', 'destructure', 'find_all', 'find_one'}


# ---------------------------------------------------------------- reference

def front(term, names):
    """without name resolution, which goes to `names` in the order in which it is written"""
    out = []
    for x in term:
        if isinstance(x, tuple) and isinstance(term, list) and x and x[0] == 'resolve_name':
            names.append(x)
        elif isinstance(x, list) or (isinstance(x, tuple) and isinstance(term, list)):
            out.append(front(x, names))
        else:
            out.append(x)
    return tuple(out) if isinstance(term, tuple) else out


def cost(atom, bound, declared):
    """how many results are to be expected: the number of rows, divided by the number of values of each argument that is known"""
    if atom[0] == '$disjunction' or atom[0] in BUILT_IN:
        return INFINITE
    worst = Fraction(0)
    for size, sizes in declared.get(atom[0], []):
        if size == 'ignored':
            c = Fraction(INFINITE)
        else:
            c = Fraction(size)
            for arg, s in zip(atom[1:], sizes):
                known = arg in bound if is_var(arg) else not isinstance(arg, (list, tuple))
                if known and s not in ('ignored', 0):
                    c /= s
        worst = max(worst, c)
    return worst


def order(atoms, bound, declared):
    # variables that an atom needs to be unbound
    own, known = [], set(bound)
    for atom in atoms:
        own.append(set(variables(atom)) - known if any(isinstance(t, list) for t in atom) else set())
        known |= {t for t in atom if is_var(t)}
    bound, todo, plan = set(bound), list(range(len(atoms))), []
    while todo:
        best = None
        for i in todo:
            if any(j < i and own[j] & set(variables(atoms[i])) for j in todo):
                continue
            c = cost(atoms[i], bound, declared)
            if best is None or c < best[0]:
                best = c, i
        i = best[1]
        todo.remove(i)
        plan.append(tuple(order(t, bound, declared) if isinstance(t, list) and t and isinstance(t[0], tuple) else t for t in atoms[i]))
        bound |= set(variables(atoms[i]))
    return plan


def isolate(atoms, roots):
    if not atoms:
        return []
    first, rest = atoms[0], atoms[1:]
    free = [set(variables(a)) - set(variables(first)) for a in rest]
    group = list(range(len(rest)))
    for i in range(len(rest)):
        for j in range(i):
            if free[i] & free[j]:
                group = [min(group[i], group[j]) if g in (group[i], group[j]) else g for g in group]
    plan = [first]
    for g in sorted(set(group)):
        part = [a for a, x in zip(rest, group) if x == g]
        shared = set().union(*[f for f, x in zip(free, group) if x == g])
        if shared & set(roots):
            plan += part
        else:
            plan.append(('scoped', isolate(part, [])))
    return plan


def plan_of(atoms, roots, declared):
    names = []
    rest = front(atoms, names)
    return isolate(order(names + rest, set(), declared), roots)


# ---------------------------------------------------------------- free meanings

VARS = ['?A', '?B', '?C', '?D', '?E', '?F', '?G1', '?G2']
ARITY = {'p': 1, 'q': 1, 'r': 2, 's': 2, 't': 3, 'u': 2, 'zero': 0, 'nowhere': 2}
SIZES = [1, 2, 3, 10, 100, 500, 1000, 10000]
CONSTANTS = ["a", 1, 0, "", "A", 2.5]


@st.composite
def terms(draw):
    return draw(st.sampled_from(VARS + VARS + CONSTANTS))


@st.composite
def atom_lists(draw, depth, low=0, high=4):
    return [draw(free_atoms(depth)) for _ in range(draw(st.integers(low, high)))]


@st.composite
def free_atoms(draw, depth):
    kind = draw(st.sampled_from(['relation'] * 8 + ['name', 'compare'] + ['nested'] * (4 if depth else 0)))
    v = lambda: draw(st.sampled_from(VARS))
    if kind == 'relation':
        name = draw(st.sampled_from(sorted(ARITY)))
        args = tuple(draw(terms()) for _ in range(ARITY[name]))
        if args and draw(st.integers(0, 15)) == 15:
            args = args[:-1] + (draw(st.sampled_from([[], [("p", "?A")], ("p", "?B")])),)
        return (name,) + args
    if kind == 'name':
        return ('resolve_name', draw(st.sampled_from(["ann", "bob"])), v())
    if kind == 'compare':
        return (draw(st.sampled_from(['greater_than', 'less_than', 'equals'])), v(), draw(terms()))
    body = lambda: draw(atom_lists(depth - 1))
    name = draw(st.sampled_from(['not', 'none', 'scoped', 'det_equals', 'det_greater_than', 'count', 'sum', 'arg_max', 'arg_min', 'all', '$disjunction',
                                 'find_all', 'percentage', 'sub']))
    if name in ('not', 'none', 'scoped'):
        return (name, body())
    if name in ('det_equals', 'det_greater_than'):
        return (name, body(), draw(st.sampled_from([1, 2, v()])))
    if name == 'count':
        return (name, v(), body())
    if name in ('sum', 'arg_max', 'arg_min'):
        return (name, v(), v(), body())
    if name == 'all':
        return (name, v(), body(), body())
    if name == 'find_all':
        return (name, '!' + v()[1:], body(), v())
    if name == 'percentage':
        return (name, v(), body(), body())
    if name == 'sub':
        # a relation over atoms, of the application
        return ('u', v(), body())
    return (name, [body() for _ in range(draw(st.integers(1, 2)))])


@st.composite
def declarations(draw, arity):
    if draw(st.integers(0, 5)) == 0:
        return 'ignored', [draw(st.sampled_from(SIZES + ['ignored', 0])) for _ in range(arity)]
    return draw(st.sampled_from(SIZES + [0])), [draw(st.sampled_from(SIZES + SIZES + ['ignored', 0])) for _ in range(arity)]


@st.composite
def cases(draw):
    declared = {}
    for name, arity in list(ARITY.items()) + [('resolve_name', 2)]:
        if name != 'nowhere':
            declared[name] = [draw(declarations(arity)) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    if draw(st.integers(0, 4)) == 4:
        # a long chain of variables
        atoms = [('p', '?H')] + draw(c13.chain_atoms(['r', 's', 'u']))
    else:
        atoms = draw(atom_lists(draw(st.sampled_from([0, 1, 1, 2, 3])), 1, 7))
    return dict(atoms=atoms, declared=declared, roots=draw(st.lists(st.sampled_from(VARS), max_size=3, unique=True)))


def judge(case, atoms, roots, declared, model, rec):
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    given = to_repo(atoms)
    optimizer = BasicQueryOptimizer(model)
    plan = from_repo(list(optimizer.optimize(given, [r[1:] for r in roots]).values())[-1])
    expected = plan_of(atoms, roots, declared)
    expect(plan == expected and repr(plan) == repr(expected), "the optimiser makes another plan", meaning=atoms, roots=roots, declared=declared, plan=plan,
           expected=expected)
    expect(from_repo(given) == atoms, "optimising changed the meaning that was handed in", before=atoms)
    again = from_repo(list(optimizer.optimize(given, [r[1:] for r in roots]).values())[-1])
    expect(again == plan, "a second plan for the same meaning differs from the first", meaning=atoms, first=plan, second=again)
    describe(atoms, plan, rec)


def describe(atoms, plan, rec):
    names = []
    rest = front(atoms, names)
    flat = c13.flatten(plan)
    moved = flat != names + rest
    isolated = any(a[0] == 'scoped' for a in plan[1:])
    if names and atoms[:len(names)] != names:
        rec.label("names fronted")
    if moved:
        rec.label("reordered")
    if isolated:
        rec.label("isolated")
    if any(a[0] == 'scoped' and any(b[0] == 'scoped' for b in a[1]) for a in plan[1:]):
        rec.label("isolated in isolated")
    rec.interesting(moved and isolated)


def check(case, rec):
    from richard.core.Model import Model
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    modules = []
    for i in range(2):
        m = SomeModule.__new__(type("M", (SomeModule,), {}))
        m.__init__()
        for name, sizes in case['declared'].items():
            if i < len(sizes):
                m.add_relation(Relation(name, relation_size=sizes[i][0], argument_sizes=list(sizes[i][1])))
        modules.append(m)
    judge(case, case['atoms'], case['roots'], case['declared'], Model(modules), rec)


def check_executable(case, rec):
    declared = {}
    ignored = ('ignored', [])
    for name, size in case['sizes'].items():
        declared[name] = [size or ignored] + ([case['twice'][name] or ignored] if name in case['twice'] else [])
    declared['resolve_name'] = [case['names'] or ignored]
    judge(case, case['atoms'], case['roots'], declared, c13.make(case), rec)


# ---------------------------------------------------------------- the application

def chat_declared(system):
    found = {}
    for module in system.model.modules:
        for name, relation in module.get_relations().items():
            found.setdefault(name, []).append((relation.relation_size, list(relation.argument_sizes)))
    return found


@st.composite
def questions(draw):
    asker = c30.Asker(draw, c30.real_world())
    return dict(questions=[asker.question() for _ in range(draw(st.integers(1, 3)))])


def check_application(case, rec):
    from richard.core.System import System
    from richard.entity.SentenceRequest import SentenceRequest
    systems = [chat80.build(optimise=o) for o in (False, True)]
    declared = chat_declared(systems[0])
    for q in case['questions']:
        found = []
        for system in systems:
            request = SentenceRequest(chat80.say(q))
            blocks = system.reader_pipeline[:2]
            composer = blocks[1].processor
            System(system.model, input_pipeline=blocks).enter(request)
            expect(request.get_current_product(composer) is not None, "the question is not understood", question=chat80.say(q))
            product = request.get_current_product(composer)
            found.append((from_repo(product.get_semantics_last_iteration()), ['?' + v for v in product.return_variables]))
        (meaning, roots), (plan, plan_roots) = found
        mapping = dict(zip(plan_roots, roots))
        expected = plan_of(meaning, roots, declared)
        expect(canonical(plan, plan_roots) == canonical(expected, roots), "the optimiser makes another plan", question=chat80.say(q), meaning=meaning, plan=plan,
               expected=expected)
        rec.label(q[0])
        rec.interesting()


def canonical(atoms, roots):
    """variables numbered by their first occurrence"""
    names = {}

    def walk(x):
        if isinstance(x, tuple):
            return tuple(walk(y) for y in x)
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, str) and len(x) > 1 and x[0] in '?!':
            return x[0] + str(names.setdefault(x[1:], len(names)))
        return x
    return walk([list(roots), atoms])


PARTS = [Part("plans", cases, check, quick=16000, thorough=400000),
         Part("executable", c13.cases, check_executable, quick=3000, thorough=60000),
         Part("application", questions, check_application, quick=300, thorough=8000, shards=4)]
