"""C10: inference derives exactly what facts and rules entail."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import from_repo, is_var, to_repo, variables
from vlib.queries import Builder, ENTITIES, NUMBERS, worlds
from vlib.refsolver import Ref, bindings_equal
from vlib.runner import Part
from vlib.world import make_model

RULE = ("Random rule bases of up to three layers over random facts (constants and repeated variables in heads, several rules per "
        "predicate, facts written as rules, negation / scope / counting / disjunction in bodies, rules that take atom lists as "
        "arguments, recursion over acyclic data), all over the same few variable names as the queries; the facts of a predicate "
        "may also be in another module. Queries with constants, repeated variables, nested atom lists and initial bindings are "
        "compared with an independent evaluator that renames every rule apart. 'long': derivations of up to 30 steps, through predicates "
        "defined in terms of each other and by recursion over long paths. Non-trivial: a rule was used, and there is an answer.")
ASSUMPTIONS = ["every head variable is bound by the body of its rule, or is called with a value",
               "no circular rules; recursion only over acyclic data", "results of count are not in the head"]

BASE = {"p": "e", "q": "e", "r": "ee", "t": "ee", "age": "en"}
NAMES = ['?X', '?Y', '?Z', '?A', '?B']


@st.composite
def heads(draw, bound, kinds):
    """terms for a head with these kinds, from the variables that the body binds"""
    terms = []
    for k in kinds:
        pool = [v for v in bound if (v in NAMES) == (k == 'e') and not v.startswith('?R')]
        if pool and draw(st.integers(0, 5)):
            terms.append(draw(st.sampled_from(sorted(pool))))
        else:
            terms.append(draw(st.sampled_from(ENTITIES if k == 'e' else NUMBERS)))
    return tuple(terms)


HIGHER = [
    ('if_some', 'l', [(('?A',), [('scoped', '?A')])]),
    ('if_none', 'l', [(('?X',), [('not', '?X')])]),
    ('and_not', 'll', [(('?A', '?B'), [('scoped', '?A'), ('none', '?B')])]),
    ('more_than_one', 'le', [(('?B', '?X'), [('q', '?X'), ('det_greater_than', '?B', 1)])]),
    ('some_p', 'el', [(('?X', '?Y'), [('p', '?X'), ('scoped', '?Y')]), (('a', '?Y'), [('if_some', '?Y')])]),
    ('nested', 'le', [(('?X', '?A'), [('p', '?A'), ('if_some', [('scoped', '?X'), ('p', '?A')])]),
                      (('?A', '?X'), [('r', '?X', '?Z'), ('and_not', '?A', [('r', '?Z', '?X')])])]),
]


RENAMED = {"a": "1", "b": "2", "c": "0", "d": "A"}


def rename(x):
    """other names for the entities"""
    if isinstance(x, (list, tuple)):
        return type(x)(rename(y) for y in x)
    if isinstance(x, dict):
        return {k: rename(v) for k, v in x.items()}
    return RENAMED.get(x, x) if isinstance(x, str) else x


def confused(t):
    if isinstance(t, str):
        return int(t) if t.isdigit() else t.lower()
    return str(t) if isinstance(t, (int, float)) else t


@st.composite
def cases(draw):
    data = draw(worlds(signature=BASE, max_rows=7))
    signature = dict(BASE)
    rules = []                                     # (name, head terms, body)
    evars = draw(st.sampled_from([NAMES[:3], NAMES, ['?A', '?X', '?B']]))
    features = ['not', 'scoped', 'none', 'det_greater_than', 'disjunction', 'greater_than', 'equals', 'count']
    names = ['d1', 'd2', 'd3', 'd4'][:draw(st.integers(1, 4))]
    for name in names:
        kinds = draw(st.sampled_from(['e', 'ee', 'ee', 'en', 'eee']))
        for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
            if draw(st.integers(0, 7)) == 0:
                # a fact
                body, bound = [], set()
            else:
                b = Builder(draw, features, signature=signature, depth=draw(st.sampled_from([0, 0, 1, 2])), evars=evars, nvars=['?N', '?M'])
                body, bound = b.query((1, 3))
            rules.append((name, draw(heads(bound, kinds)), body))
        signature[name] = kinds
    if draw(st.integers(0, 2)) == 0:
        # right recursion over r restricted to pairs in order
        rules.append(('anc', ('?X', '?Y'), [('edge', '?X', '?Y')]))
        rules.append(('anc', ('?X', '?Y'), [('edge', '?X', '?Z'), ('anc', '?Z', '?Y')]))
        data['edge'] = (2, [row for row in data['r'][1] if row[0] < row[1]])
        signature['anc'] = 'ee'
    higher = draw(st.booleans())
    if higher:
        for name, kinds, rs in HIGHER:
            rules.extend((name, h, b) for h, b in rs)
    # facts of derived predicates in another module
    for name in names:
        if draw(st.integers(0, 4)) == 0:
            row = tuple(draw(st.sampled_from(ENTITIES[:3] if k == 'e' else NUMBERS)) for k in signature[name])
            data[name] = (len(row), [row])
    # some base facts are written as rules
    for name in ('p', 'r'):
        if draw(st.integers(0, 3)) == 0:
            arity, rows = data[name]
            rules.extend((name, row, []) for row in rows[::2])
            data[name] = (arity, rows[1::2])

    binding = {}
    for v in draw(st.sampled_from([[], [], ['X'], ['A'], ['Z', 'B']])):
        binding[v] = draw(st.sampled_from(ENTITIES[:3]))
    b = Builder(draw, ['not', 'scoped', 'all'], signature={k: v for k, v in signature.items() if k in names or k == 'anc' or k in ('p', 'r')},
                depth=1, evars=evars, nvars=['?N'])
    atoms, bound = b.query((1, 2), {'?' + v for v in binding})
    if not any(a[0] in names or a[0] == 'anc' for a in atoms):
        focus = Builder(draw, [], signature={k: v for k, v in signature.items() if k in names or k == 'anc'}, depth=0, evars=evars, nvars=['?N'])
        atom, bound = focus.relation(bound)
        atoms.append(atom)
    other = draw(st.sampled_from(['', '', 'text', 'number']))
    if other:
        # a number is asked for as text, or a text that looks like a number as a number
        if other == 'number':
            data, rules, atoms, binding = [rename(x) for x in (data, rules, atoms, binding)]
        atoms = [(a[0],) + tuple(confused(t) if not is_var(t) and draw(st.booleans()) else t for t in a[1:]) if a[0] in signature else a for a in atoms]
    if draw(st.integers(0, 4)) == 4:
        # heads with a variable twice, called with two values
        rules.extend([('same', ('?X', '?X'), []), ('same3', ('?Y', '?X', '?Y'), [('p', '?X')])])
        known = sorted(v for v in bound if not v.startswith('?R')) + [v for v in ENTITIES[:2] + NUMBERS[:2]]
        one = draw(st.sampled_from(known))
        two = draw(st.sampled_from([one, confused(one) if not is_var(one) else one, draw(st.sampled_from(known))]))
        atoms.append(draw(st.sampled_from([('same', one, two), ('same3', one, '?X', two)])))
    if higher:
        name, kinds, _ = draw(st.sampled_from(HIGHER))
        terms = []
        for k in kinds:
            if k == 'l':
                inner, _ = b.body(bound, 1, prefer=sorted(bound))
                terms.append(inner)
            else:
                v = draw(st.sampled_from(sorted(evars)))
                terms.append(v)
        atoms.append(tuple([name] + terms))
    return dict(data=data, rules=rules, atoms=atoms, binding=binding, split=draw(st.booleans()))


def check(case, rec):
    from richard.core.Solver import Solver
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule

    inference = InferenceModule()
    kept = []
    for name, head, body in case['rules']:
        rule = InferenceRule(tuple([name] + list(to_repo(head))), to_repo(body))
        kept.append(rule)
        inference.insert_rule(rule)
    model = make_model([[('list', n, a, rows) for n, (a, rows) in case['data'].items()]], extra=[inference])
    rules = {}
    for name, head, body in case['rules']:
        rules.setdefault(name, []).append((head, body))
    facts = {n: rows for n, (a, rows) in case['data'].items()}
    ref = Ref(facts, rules)
    expected = ref.solve(case['atoms'], case['binding'])
    atoms, binding = to_repo(case['atoms']), dict(case['binding'])
    solver = Solver(model)
    for attempt in (1, 2):
        actual = solver.solve(atoms, binding)
        expect(isinstance(actual, list) and all(isinstance(r, dict) for r in actual), "solve did not return a list of bindings", result=actual)
        expect(bindings_equal(actual, expected), "wrong answers" + (" when asked again" if attempt == 2 else ""),
               query=case['atoms'], binding=case['binding'], facts=facts, rules=case['rules'], answers=actual, expected=expected)
    expect(from_repo(atoms) == case['atoms'] and binding == case['binding'], "solving changed its input", atoms=case['atoms'])
    for rule, (name, head, body) in zip(kept, case['rules']):
        expect(from_repo(rule.head)[1:] == head and from_repo(rule.body) == body, "solving changed a rule", rule=(name, head, body))

    used = {a for a in predicates(case['atoms'], set()) if a in rules}
    clash = any(set(variables(list(h)) + variables(b)) & set(variables(case['atoms'])) for n, h, b in case['rules'] if n in used)
    if clash:
        rec.label("query and rule share variable names")
    if used & {h[0] for h in HIGHER}:
        rec.label("atom list as argument")
    if 'anc' in used:
        rec.label("recursion")
    if used & set(facts):
        rec.label("facts and rules for one predicate")
    if ref.fresh > 5:
        rec.label("more than five rule applications")
    rec.label("answers" if expected else "no answers")
    rec.interesting(bool(used) and bool(expected))


def predicates(x, out):
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        out.add(x[0])
    if isinstance(x, (tuple, list)):
        for y in x:
            predicates(y, out)
    return out


@st.composite
def chains(draw):
    """derivations of many steps: predicates defined in terms of each other, and recursion over long paths"""
    n = draw(st.integers(3, 30))
    data = {'p': (1, [(e,) for e in draw(st.lists(st.sampled_from(ENTITIES), min_size=1, max_size=3, unique=True))]),
            'r': (2, draw(st.lists(st.tuples(st.sampled_from(ENTITIES), st.sampled_from(ENTITIES)), max_size=4, unique=True)))}
    rules = []
    if draw(st.booleans()):
        below = ('r', 2) if draw(st.booleans()) else ('p', 1)
        for i in range(n):
            name = f"c{i}"
            x, y = draw(st.sampled_from([('?X', '?Y'), ('?Y', '?X'), ('?A', '?B')]))
            if below[1] == 2:
                swap = draw(st.booleans())
                head, atom = (x, y), (below[0], y, x) if swap else (below[0], x, y)
            else:
                head, atom = (x,), (below[0], x)
            body = [atom]
            extra = draw(st.integers(0, 9))
            if extra == 9:
                body = [('p', x), atom] if draw(st.booleans()) else [atom, ('not', [('p', 'nobody')])]
            elif extra == 8:
                body = [('scoped', [atom])] if below[1] == 1 and draw(st.booleans()) else [atom, ('equals', x, x)]
                if body[0][0] == 'scoped':
                    body = [('p', x)] + body
            rules.append((name, head, body))
            if extra == 7:
                rules.append((name, head, [('p', x), ('p', y)][:len(head)]))
            below = (name, len(head))
        goal, arity = below
    else:
        edges = [(i, i + 1) for i in range(n)] + draw(st.lists(st.tuples(st.integers(0, n // 2), st.integers(n // 2 + 1, n)), max_size=1))
        data['edge'] = (2, list(dict.fromkeys(edges)))
        rules.append(('anc', ('?X', '?Y'), [('edge', '?X', '?Y')]))
        rules.append(('anc', ('?X', '?Z'), [('edge', '?X', '?Y'), ('anc', '?Y', '?Z')]))
        goal, arity = 'anc', 2
    if goal == 'anc':
        terms = draw(st.sampled_from([('?X', n), (0, '?Z'), (0, n), ('?Z', '?X') if n < 15 else ('?X', n)]))
    else:
        terms = tuple(draw(st.sampled_from(['?X', '?Y', '?B'] + ENTITIES[:1])) for _ in range(arity))
    atoms = [(goal,) + tuple(terms)]
    if draw(st.integers(0, 3)) == 0:
        atoms = [('scoped', atoms)] if draw(st.booleans()) else [('not', atoms)]
    return dict(data=data, rules=draw(st.permutations(rules)) if draw(st.booleans()) else rules, atoms=atoms, binding={}, split=False)


PARTS = [Part("entailment", cases, check, quick=5000, thorough=120000),
         Part("long", chains, check, quick=1500, thorough=30000)]
