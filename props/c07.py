"""C07: solving a conjunction returns exactly its answers."""
import copy

from hypothesis import strategies as st

from vlib.case import expect, fail
from vlib.lang import from_repo, to_repo
from vlib.many import chains, many_facts
from vlib.runner import Part
from vlib.world import VALUES, VARS, distinct, facts, keyed, make_model, placements, same_value, unify

RULE = ("Random facts for four relations spread over 1-3 modules and three kinds of data source (rows also duplicated between "
        "modules), conjunctions of 0-4 atoms with repeated variables and constants, and random initial bindings, part of them built "
        "around an answer; part `large`: hundreds of facts; compared with a naive join. Non-trivial: at least two atoms that share a variable or a repeated variable in one atom, and an answer.")
ASSUMPTIONS = ["relations filter on the values they are given, as all data sources do", "None is not a data value"]


@st.composite
def cases(draw):
    data = draw(facts(max_arity=5))
    placed = draw(placements(data))
    pool = sorted({v for _, rows in data.values() for r in rows for v in r}, key=lambda v: (str(type(v)), v)) or [1]
    variables = VARS[:draw(st.integers(1, len(VARS)))]
    atoms = []
    # a case with a witness has an answer: each variable stands for the value it has in a row that is picked
    witness = {} if draw(st.integers(0, 2)) else None
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3, 3, 4]))):
        name = draw(st.sampled_from(sorted(data)))
        if witness is not None and data[name][1]:
            args = []
            for value in draw(st.sampled_from(data[name][1])):
                known = [v for v in variables if v in witness and same_value(witness[v], value)]
                free = [v for v in variables if v not in witness]
                options = known * 2 + free[:1] + ([] if draw(st.integers(0, 4)) else [value])
                term = draw(st.sampled_from(options)) if options else value
                if isinstance(term, str) and term in free:
                    witness[term] = value
                args.append(term)
            atoms.append(tuple([name] + args))
            continue
        args = [draw(st.sampled_from(variables)) if draw(st.integers(0, 4)) else draw(st.sampled_from(pool + [99]))
                for _ in range(data[name][0])]
        atoms.append(tuple([name] + args))
    if draw(st.sampled_from([0] * 15 + [1])):
        atoms.insert(draw(st.integers(0, len(atoms))), ('unknown_relation', '?X'))
    names = draw(st.lists(st.sampled_from([v[1:] for v in VARS] + ['Other']), max_size=2, unique=True))
    binding = {n: witness['?' + n] if witness and '?' + n in witness and draw(st.integers(0, 3)) else draw(st.sampled_from(pool)) for n in names}
    return dict(data=data, placed=placed, atoms=atoms, binding=binding)


class UnknownPredicate(Exception):
    pass


def reference(data, atoms, binding):
    bindings = [binding]
    for atom in atoms:
        if atom[0] not in data and bindings:
            raise UnknownPredicate
        if not bindings:
            return []
        out = []
        for b in bindings:
            for row in data[atom[0]][1]:
                e = unify(atom[1:], row, b)
                if e is not None:
                    out.append(e)
        bindings = distinct(out)
    return bindings


def check(case, rec):
    from richard.core.Solver import Solver
    model = make_model(case['placed'])
    solver = Solver(model)
    atoms = to_repo(case['atoms'])
    binding = dict(case['binding'])
    try:
        expected = reference(case['data'], case['atoms'], case['binding'])
    except UnknownPredicate:
        rec.label("unknown predicate")
        rec.interesting()
        try:
            result = solver.solve(atoms, binding)
        except Exception:
            return
        fail("an unknown predicate was not reported", atoms=case['atoms'], result=result)
    for attempt in (1, 2):
        result = solver.solve(atoms, binding)
        expect(isinstance(result, list) and all(isinstance(r, dict) for r in result), "solve did not return a list of bindings", result=result)
        expect(keyed(result) == keyed(expected), "wrong answers to a conjunction" + (" when asked again" if attempt == 2 else ""),
               atoms=case['atoms'], binding=case['binding'], modules=case['placed'], answers=result, expected=expected)
        expect(binding == case['binding'], "solving changed the initial binding", before=case['binding'], after=binding)
        expect(from_repo(atoms) == case['atoms'], "solving changed the atoms", before=case['atoms'], after=from_repo(atoms))
    first = solver.solve1(atoms, binding)
    if expected:
        expect(isinstance(first, dict) and keyed([first])[0] in keyed(expected), "solve1 is not one of the answers", atoms=case['atoms'], first=first)
    else:
        expect(first is None, "solve1 gives an answer to a question without answers", atoms=case['atoms'], first=first)
    # the data are untouched
    for name, (arity, rows) in case['data'].items():
        found = solver.solve([tuple([name] + to_repo(['?v%d' % i for i in range(arity)]))])
        want = distinct([{f"v{i}": x for i, x in enumerate(r)} for r in rows])
        expect(keyed(found) == keyed(want), "a plain query does not list the facts", relation=name, found=found, expected=want)

    shared = False
    for i, a in enumerate(case['atoms']):
        vs = [x for x in a[1:] if isinstance(x, str) and x[:1] == '?']
        shared = shared or len(vs) > len(set(vs)) or any(set(vs) & {x for x in b[1:] if isinstance(x, str) and x[:1] == '?'} for b in case['atoms'][:i])
    rec.label("no answers" if not expected else "1 answer" if len(expected) == 1 else "2+ answers", f"{len(case['atoms'])} atoms")
    if any(len([m for m in case['placed'] if any(c[1] == n for c in m)]) > 1 for n in case['data']):
        rec.label("relation in several modules")
    if case['binding']:
        rec.label("initial binding")
    rec.interesting(shared and bool(expected))


@st.composite
def large(draw):
    data = draw(many_facts())
    n = draw(st.integers(1, 2))
    kinds = {name: draw(st.sampled_from(['list', 'simple', 'sqlite'])) for name in data}
    cut = draw(st.integers(0, 60))
    placed = [[(kinds[name], name, arity, rows if n == 1 else rows[:cut]) for name, (arity, rows) in data.items()]]
    if n == 2:
        # some are in both modules
        placed.append([(kinds[name], name, arity, rows[max(0, cut - 3):]) for name, (arity, rows) in data.items()])
    return dict(data=data, placed=placed, atoms=draw(chains(data)), binding=draw(st.sampled_from([{}, {}, {}, {'X': 'e3'}, {'Z': 'e1'}])))


PARTS = [Part("join", cases, check, quick=8000, thorough=150000),
         Part("large", large, check, quick=800, thorough=12000, shards=8, steps=100_000_000)]
