"""C28: let, equals and destructure bind and test exactly what they are given."""
import copy

from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import from_repo, is_var, to_repo
from vlib.runner import Part
from vlib.world import distinct, keyed, unify

RULE = ("Random queries of let, equals, destructure and relation atoms over values of every kind (numbers, texts, falsy values, lists, "
        "lists of atoms), also inside scoped, find_all and the bodies of inference rules, under random initial bindings; compared with an evaluation by "
        "substitution and matching. Non-trivial: a destructure or equals that failed, or bound a variable that a later atom used.")
ASSUMPTIONS = ["the variable of `let` is not bound before, as are the variables of a pattern (or they are bound to that very value)",
               "a pattern that does not match gives none of its variables a value (whether it fails is left open: at present it succeeds)"]

VALUES = ["a", "b", "", "it's", "$1", "p", 0, 1, 2, -1, 2.5, 1.0, False, True, "1", "0", "A", "None", "True", "[]"]
TWINS = [("1", 1), (0, ""), (0, "0"), ("a", "A"), ("", []), (False, ""), (0, False), (1, 1.0), ("2.5", 2.5), ("None", "none"), ("a", ["a"]), ([], "[]"), (["a", "b"], ["b", "a"]),
         ([1], ["1"]), ("True", True), ("a", "a "), (2, 2.5)]
LISTS = [["a"], [], ["a", "b"], [1], [[1], "a"], [["a", 1], ["b", 2]]]
ATOMS = [('p', 'a', 1), ('p', 'a', 'a'), ('q', 'b'), ('r',), ('p', 0, ''), ('q', [('p', 'a', 1)]), ('p', ['a'], 2), ('not', [('q', 'b')]), ('p', 'q', 'p')]
VARS = ['?A', '?B', '?C', '?D', '?E1']


def same(a, b):
    """as Python compares"""
    return a == b


@st.composite
def cases(draw):
    rows = draw(st.lists(st.tuples(st.sampled_from(VALUES[:8]), st.sampled_from(VALUES[:9])), max_size=4))
    binding = {}
    for v in draw(st.lists(st.sampled_from(['A', 'B', 'Z']), max_size=2, unique=True)):
        binding[v] = draw(st.one_of(st.sampled_from(VALUES), st.sampled_from(VALUES), st.sampled_from(LISTS), st.sampled_from(ATOMS).map(lambda a: [a])))
    bound = {'?' + v for v in binding}
    atoms = []

    def old(extra):
        if bound and draw(st.integers(0, 2)):
            return draw(st.sampled_from(sorted(bound)))
        return draw(extra)

    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4]))):
        kind = draw(st.sampled_from(['let', 'equals', 'equals', 'destructure', 'destructure', 'destructure', 'row']))
        free = [v for v in VARS if v not in bound]
        anything = st.one_of(st.sampled_from(VALUES), st.sampled_from(LISTS), st.sampled_from(ATOMS).map(lambda a: [a]))
        if kind == 'let' and free:
            v = draw(st.sampled_from(free))
            atoms.append(('let', v, old(anything)))
            bound.add(v)
        elif kind == 'equals':
            side = old(anything)
            other = draw(st.sampled_from(free)) if free and draw(st.booleans()) else old(anything)
            if draw(st.integers(0, 3)) == 3:
                side, other = draw(st.sampled_from(TWINS))
            if draw(st.booleans()):
                side, other = other, side
            atoms.append(('equals', side, other))
            bound |= {x for x in (side, other) if is_var(x)}
        elif kind == 'destructure':
            atom = draw(st.sampled_from(ATOMS))
            # the atom, some arguments in bound variables
            shown = [atom[0]] + [draw(st.sampled_from(sorted(bound))) if bound and draw(st.integers(0, 3)) == 3 else a for a in atom[1:]]
            shown = [tuple(shown)]
            holders = [v for v in sorted(bound) if isinstance(binding.get(v[1:]), list) and binding[v[1:]] and isinstance(binding[v[1:]][0], tuple)]
            if holders and draw(st.booleans()):
                shown = draw(st.sampled_from(holders))
                atom = binding[shown[1:]][0]
            pattern = []
            names = [v for v in VARS + ['?P', '?Q'] if v not in bound]
            for t in atom:
                how = draw(st.sampled_from(['var', 'var', 'var', 'same', 'same', 'other']))
                if how == 'var' and names:
                    pattern.append(draw(st.sampled_from(names)))
                elif how == 'other':
                    pattern.append(draw(st.sampled_from(['p', 'q', 'a', 1, 0])))
                else:
                    pattern.append(t)
            if draw(st.integers(0, 7)) == 7:
                pattern = pattern[:-1] if len(pattern) > 1 and draw(st.booleans()) else pattern + [draw(st.sampled_from(names or ['a']))]
            atoms.append(('destructure', shown) + tuple(pattern))
            bound |= {x for x in pattern if is_var(x)}
        else:
            atoms.append(('row', old(st.sampled_from(VARS)), draw(st.sampled_from(VARS))))
            bound |= {x for x in atoms[-1][1:] if is_var(x)}
    return dict(rows=rows, binding=binding, atoms=atoms, context=draw(st.sampled_from(['plain', 'plain', 'scoped', 'find_all', 'rule'])))


def substitute(x, binding):
    if isinstance(x, tuple):
        return tuple(substitute(y, binding) for y in x)
    if isinstance(x, list):
        return [substitute(y, binding) for y in x]
    if is_var(x) and x[1:] in binding:
        return binding[x[1:]]
    return x


class Open(Exception):
    """outside of the domain from here on"""


def step(atom, b, rows, notes):
    name, args = atom[0], atom[1:]
    if name == 'row':
        out = []
        for r in rows:
            e = dict(b)
            if all((e[a[1:]] == v and type(e[a[1:]]) is type(v)) if a[1:] in e else e.setdefault(a[1:], v) is v or True for a, v in zip(args, r)):
                out.append(e)
        return out
    if name == 'let':
        value = b.get(args[1][1:]) if is_var(args[1]) else args[1]
        notes.append('let')
        return [{**b, args[0][1:]: value}]
    if name == 'equals':
        left, right = [b.get(a[1:]) if is_var(a) else a for a in args]
        free = [a for a in args if is_var(a) and a[1:] not in b]
        if len(free) == 2:
            raise Open
        if free:
            notes.append('equals binds')
            return [{**b, free[0][1:]: right if free[0] == args[0] else left}]
        if not same(left, right):
            notes.append('equals fails')
        return [b] if same(left, right) else []
    # destructure
    atom = substitute(args[0], b)[0]
    pattern = args[1:]
    if len(atom) != len(pattern):
        raise NoMatch
    out = dict(b)
    conflict = False
    for t, p in zip(atom, pattern):
        if is_var(t):
            raise Open
        if is_var(p):
            if p[1:] in b:
                if not same(b[p[1:]], t):
                    raise Open
            elif p[1:] in out and not same(out[p[1:]], t):
                conflict = True
            out[p[1:]] = t
        elif not same(t, p):
            raise NoMatch
    notes.append('conflict' if conflict else 'matched')
    return [] if conflict else [out]


class NoMatch(Exception):
    pass


def check(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule

    class World(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation('row', arguments=['a', 'b'], query_function=lambda v, c: [list(r) for r in case['rows'] if all(
                x is None or (type(x) is type(y) and x == y) for x, y in zip(v, r))]))

    inference = InferenceModule()
    solver = Solver(Model([World(), inference]))
    notes = []
    atoms, expected, failed = case['atoms'], [dict(case['binding'])], None
    for n, atom in enumerate(case['atoms']):
        out = []
        try:
            for b in expected:
                out.extend(step(atom, b, case['rows'], notes))
        except Open:
            rec.label("outside")
            atoms = case['atoms'][:n]
            break
        except NoMatch:
            if len(expected) == 1:
                failed = atom
            atoms = case['atoms'][:n]
            break
        expected = []
        for b in out:
            if b not in expected:
                expected.append(b)
    used = [v for a in atoms for v in flat_vars(a)]
    given = copy.deepcopy(case['binding'])
    query = to_repo(atoms)
    context = case['context']
    order = sorted(set(v[1:] for v in used))
    if context == 'plain' or not order:
        found = solver.solve(query, to_repo(given))
        expect(show(found) == show(expected), "wrong bindings", atoms=atoms, binding=case['binding'], found=found, expected=expected, rows=case['rows'])
    elif context == 'scoped':
        found = solver.solve([('scoped', query)], to_repo(given))
        expect(show(found) == show([case['binding']] if expected else []), "wrong outcome inside a scope", atoms=atoms, binding=case['binding'], found=found, expected=expected)
    elif context == 'find_all':
        wanted = []
        for b in expected:
            item = [b.get(v) for v in order]
            if item not in wanted:
                wanted.append(item)
        found = solver.solve([('find_all', to_repo(['?' + v for v in order]), query, to_repo('?Result'))], to_repo(given)) if False else \
            solver.solve([('find_all', list(order), query, to_repo('?Result'))], to_repo(given))
        expect(len(found) == 1 and show([{'r': x} for x in found[0]['Result']]) == show([{'r': x} for x in wanted]), "wrong values found", atoms=atoms, binding=case['binding'],
               found=found, expected=wanted)
    else:
        inference.insert_rule(InferenceRule(tuple(['derived'] + to_repo(['?' + v for v in order])), query))
        arguments = [case['binding'].get(v, f'?{v}x') for v in order]
        if not any(isinstance(a, list) for a in arguments):
            found = solver.solve([tuple(['derived'] + to_repo(arguments))])
            wanted = []
            for b in expected:
                w = {v + 'x': b[v] for v in order if v not in case['binding']}
                if w not in wanted:
                    wanted.append(w)
            expect(show(found) == show(wanted), "wrong bindings in a rule", atoms=atoms, arguments=arguments, found=found, expected=wanted)
    expect(from_repo(query) == atoms and given == case['binding'], "solving changed the query or the binding", atoms=atoms, query=from_repo(query))
    if failed is not None and expected:
        # the pattern does not match: none of its variables gets a value
        found = solver.solve(to_repo([failed]), to_repo(expected[0]))
        free = [p[1:] for p in failed[2:] if is_var(p) and p[1:] not in expected[0]]
        expect(all(f.get(v) is None for f in found for v in free), "a pattern that does not match gives its variables values", pattern=failed, found=found)
        expect(all({k: v for k, v in f.items() if k not in free} == to_repo(expected[0]) for f in found), "other variables changed", pattern=failed, found=found)
        rec.label("does not match")
    rec.label(context, *set(notes))
    later = any(set(flat_vars(a)) & set(flat_vars(b)) for i, a in enumerate(atoms) for b in atoms[i + 1:])
    rec.interesting(failed is not None or 'equals fails' in notes or 'conflict' in notes or (later and ('matched' in notes or 'equals binds' in notes)))


def flat_vars(x, out=None):
    out = [] if out is None else out
    if is_var(x):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat_vars(y, out)
    return out


def show(bindings):
    """values as Python compares them: 1, 1.0 and True are equal"""
    def plain(v):
        v = from_repo(v)
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(plain(x) for x in v)
        if isinstance(v, (bool, int, float)):
            return ('number', float(v))
        return (type(v).__name__, repr(v))
    return sorted(repr(sorted((k, plain(v)) for k, v in b.items())) for b in bindings)


PARTS = [Part("queries", cases, check, quick=8000, thorough=200000)]
