"""C13: query optimisation never changes the answers."""
from hypothesis import strategies as st

from vlib.case import Discard, expect
from vlib.lang import from_repo, is_var, to_repo, variables
from vlib.queries import Builder, ENTITIES, NUMBERS, SIGNATURE as SMALL, worlds
from vlib.refsolver import Ambiguous, Ref, bindings_equal
from vlib.runner import Part
from vlib.world import distinct

RULE = ("Random meanings of up to 6 atoms (relations, name resolution at any depth, comparisons, arithmetic, negation, quantifiers, "
        "aggregates, superlatives, disjunction, nested to depth 2) in executable order over random worlds, with random declared sizes "
        "(0, 1, ..., 10000, ignored, several modules per predicate). Original, optimised and reference answers are compared on the "
        "root variables. Part `chains`: up to 8 relations in any order, linked by a tree of variables. Non-trivial: the optimiser changed the meaning, and there is an answer.")
ASSUMPTIONS = ["a variable that occurs inside and outside of a nested scope is bound before it, or is its result",
               "every name resolves to exactly one identifier, and name resolution introduces its own variable",
               "no atoms with side effects, no let", "no ties in arg_min and arg_max"]

FEATURES = ['not', 'none', 'scoped', 'det_equals', 'det_greater_than', 'det_less_than', 'all', 'count', 'sum', 'avg', 'arg_min', 'arg_max',
            'greater_than', 'less_than', 'equals', 'multiply', 'disjunction', 'name', 'name', 'name']
SIGNATURE = dict(SMALL, w="eeen")
PEOPLE = {"Ann": "a", "Bob": "b", "Cy": "c"}
RESULT_ARGS = {'count': (0,), 'sum': (0,), 'avg': (0,), 'percentage': (0,), 'arg_min': (0, 1), 'arg_max': (0, 1), 'all': (0,)}


class NameBuilder(Builder):
    """knows name resolution; relations may use the results of aggregates"""
    names = 0

    def atom(self, bound, depth, first=False, prefer=()):
        if 'name' in self.features and self.draw(st.integers(0, 6)) == 0:
            NameBuilder.names += 1
            v = f"?P{NameBuilder.names}"
            return ('resolve_name', self.pick(sorted(PEOPLE)), v), bound | {v}
        features, self.features = self.features, [f for f in self.features if f != 'name']
        try:
            atom, after = super().atom(bound, depth, first, prefer)
            if atom[0] == 'count':
                self.counts = getattr(self, 'counts', set()) | {atom[1]}
            return atom, after
        finally:
            self.features = features

    def relation(self, bound, prefer=()):
        atom, after = super().relation(bound, prefer)
        args = list(atom)
        extra = sorted(v for v in bound if v in getattr(self, 'counts', ()))
        people = sorted(v for v in bound if v.startswith('?P'))
        for i, k in enumerate(self.signature[atom[0]]):
            pool = extra if k == 'n' else people
            if pool and self.draw(st.integers(0, 2)) == 0:
                args[i + 1] = self.pick(pool)
        return tuple(args), bound | {a for a in args[1:] if is_var(a)}


def nested(atom):
    return any(isinstance(t, list) for t in atom[1:])


def privatize(atoms, bound, counter):
    """variables that are met first inside a nested scope get a name of their own, so that they are not used outside of it"""
    bound, out = set(bound), []
    for atom in atoms:
        if nested(atom):
            results = {atom[1 + i] for i in RESULT_ARGS.get(atom[0], ()) if is_var(atom[1 + i])}
            if atom[0] == '$disjunction':
                results = set.intersection(*[top_variables(x) for x in atom[1]])
            mapping = {}
            for v in variables(atom):
                if v not in bound and v not in results:
                    counter[0] += 1
                    mapping[v] = f"?{v[1:]}_{counter[0]}"
            atom = rename(atom, mapping)
            inner = bound | (results if atom[0] != '$disjunction' else set())
            atom = tuple([atom[0]] + [inside(t, bound, counter) for t in atom[1:]])
            bound |= results
        else:
            bound |= set(variables(atom))
        out.append(atom)
    return out


def inside(term, bound, counter):
    if isinstance(term, list):
        if term and isinstance(term[0], list):
            return [privatize(x, bound, counter) for x in term]
        return privatize(term, bound, counter)
    return term


def top_variables(atoms):
    out = set()
    for atom in atoms:
        if not nested(atom):
            out |= set(variables(atom))
        else:
            out |= {atom[1 + i] for i in RESULT_ARGS.get(atom[0], ()) if is_var(atom[1 + i])}
    return out


def rename(x, mapping):
    if is_var(x):
        return mapping.get(x, x)
    if isinstance(x, tuple):
        return tuple(rename(y, mapping) for y in x)
    if isinstance(x, list):
        return [rename(y, mapping) for y in x]
    return x


SIZES = [1, 2, 10, 100, 1000, 10000]


@st.composite
def sizes(draw, arity):
    if draw(st.integers(0, 4)) == 0:
        return None
    size = draw(st.sampled_from(SIZES + [0]))
    return size, [draw(st.sampled_from(SIZES + SIZES + ['ignored', 0])) for _ in range(arity)]


@st.composite
def cases(draw):
    data = draw(worlds(SIGNATURE, max_rows=7))
    NameBuilder.names = 0
    b = NameBuilder(draw, FEATURES, SIGNATURE, depth=draw(st.sampled_from([1, 1, 2])))
    atoms, bound = b.query((2, 6))
    if draw(st.integers(0, 3)) == 0:
        # a sentence begins with a superlative or a quantified phrase
        kind = draw(st.sampled_from(['arg_max', 'arg_min', 'all', 'count']))
        v, n = '?S', '?T'
        body, _ = b.body({v, n}, 0, size=(0, 1), prefer=[v])
        if kind == 'all':
            first = ('all', v, [(draw(st.sampled_from(['p', 'q'])), v)], body or [('p', v)])
        elif kind == 'count':
            first = ('count', n, [('p', '?C')] + body)
        else:
            first = (kind, v, n, [(draw(st.sampled_from(['age', 'size'])), v, n)] + body)
        follow = [(draw(st.sampled_from(['p', 'q'])), v)] if kind != 'count' else [(draw(st.sampled_from(['age', 'size'])), v, n)]
        if draw(st.booleans()):
            follow.append((draw(st.sampled_from(['r', 't'])), v, draw(st.sampled_from(['?S2', '?X', 'a']))))
        atoms = [first] + follow + atoms[:draw(st.integers(0, 3))]
        bound = top_variables(atoms)
    if draw(st.integers(0, 5)) == 5:
        # something is said twice
        again = draw(st.sampled_from([a for a in atoms if not nested(a)] or atoms[:1]))
        if not nested(again):
            atoms = atoms + [again] if draw(st.booleans()) else atoms[:atoms.index(again)] + [again] + atoms[atoms.index(again):]
    atoms = privatize(atoms, set(), [0])
    bound = sorted(v for v in top_variables(atoms) if not v.startswith('?E'))
    roots = draw(st.permutations(bound))[:draw(st.sampled_from([0, 1, 1, 2, 3]))]
    size = {n: draw(sizes(len(k))) for n, k in SIGNATURE.items()}
    twice = {n: draw(sizes(len(SIGNATURE[n]))) for n in draw(st.lists(st.sampled_from(sorted(SIGNATURE)), max_size=2, unique=True))}
    return dict(data=data, atoms=atoms, roots=roots, sizes=size, twice=twice, names=draw(st.sampled_from([None, (100, [100, 10]), (3, [3, 3])])))


LINKS = ['?A', '?B', '?C', '?D', '?F', '?G', '?I', '?J']


@st.composite
def chain_atoms(draw, names, low=3):
    """atoms that are connected by a tree of variables, in any order"""
    links = draw(st.permutations(LINKS))[:draw(st.sampled_from([4, 5, 6, 6, 7, 8]))]
    atoms = []
    for i in range(1, len(links)):
        # mostly a chain
        other = links[i - 1] if draw(st.integers(0, 3)) else links[draw(st.integers(0, i - 1))]
        pair = [links[i], other] if draw(st.booleans()) else [other, links[i]]
        if draw(st.integers(0, 9)) == 9:
            pair[draw(st.integers(0, 1))] = draw(st.sampled_from(['?H', 'a']))
        atoms.append((draw(st.sampled_from(names)), *pair))
    atoms = list(draw(st.permutations(atoms)))
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        atoms.insert(draw(st.integers(0, len(atoms))), (draw(st.sampled_from(names)), '?H', draw(st.sampled_from(links))))
    return atoms


@st.composite
def chains(draw):
    ents = ENTITIES[:draw(st.sampled_from([2, 3, 3]))]
    data = {n: (len(k), []) for n, k in SIGNATURE.items()}
    data['p'] = (1, draw(st.lists(st.tuples(st.sampled_from(ents)), min_size=1, max_size=3)))
    for name in 'rt':
        data[name] = (2, draw(st.lists(st.tuples(st.sampled_from(ents), st.sampled_from(ents)), min_size=1, max_size=5, unique=True)))
    atoms = [('p', '?H')] + draw(chain_atoms(['r', 't']))
    roots = draw(st.sampled_from([['?H'], ['?H'], [], ['?H', atoms[1][1]] if is_var(atoms[1][1]) else []]))
    size = {n: draw(st.sampled_from([None, None, (10, [2] * len(k))])) for n, k in SIGNATURE.items()}
    size['p'] = None
    return dict(data=data, atoms=atoms, roots=list(dict.fromkeys(roots)), sizes=size, twice={}, names=None)


def make(case):
    from richard.core.Model import Model
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule

    def module(content):
        m = SomeModule.__new__(type("M", (SomeModule,), {}))
        m.__init__()
        for name, rows, size in content:
            options = dict(relation_size=size[0], argument_sizes=list(size[1])) if size else {}
            m.add_relation(Relation(name, query_function=(lambda rows: lambda values, context: [
                list(r) for r in rows if all(v is None or v == x for v, x in zip(values, r))])(rows), **options))
        return m

    first, second = [], []
    for name, (arity, rows) in case['data'].items():
        if name in case['twice']:
            first.append((name, rows[::2], case['sizes'][name]))
            second.append((name, rows[1::2], case['twice'][name]))
        else:
            first.append((name, rows, case['sizes'][name]))
    first.append(("resolve_name", [list(x) for x in PEOPLE.items()], case['names']))
    return Model([module(first), module(second)])


def project(answers, roots):
    return distinct([{r[1:]: x[r[1:]] for r in roots if r[1:] in x} for x in answers])


def canonical(atoms, fronted):
    """image of a meaning without the order of atoms; name resolution anywhere goes to `fronted`"""
    out = []
    for atom in atoms:
        if atom[0] == 'resolve_name':
            fronted.append(repr(atom))
        elif atom[0] == '$disjunction':
            out.append(repr(('$disjunction', [canonical(x, fronted) for x in atom[1]])))
        else:
            out.append(repr(tuple(canonical(t, fronted) if isinstance(t, list) else t for t in atom)))
    return sorted(out)


def flatten(atoms):
    """without the scopes around isolated parts at the top level"""
    out = []
    for atom in atoms:
        out.extend(flatten(atom[1]) if atom[0] == 'scoped' else [atom])
    return out


def check(case, rec):
    from richard.core.Solver import Solver
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer

    model = make(case)
    atoms = to_repo(case['atoms'])
    roots = case['roots']
    try:
        reference = Ref({**{n: rows for n, (a, rows) in case['data'].items()}, 'resolve_name': [tuple(x) for x in PEOPLE.items()]}).solve(case['atoms'], {})
    except Ambiguous:
        raise Discard
    solver = Solver(model)
    original = project(solver.solve(atoms), roots)
    expect(bindings_equal(original, project(reference, roots)), "wrong answers without optimisation", atoms=case['atoms'], answers=original, expected=reference)

    iterations = BasicQueryOptimizer(model).optimize(atoms, [r[1:] for r in roots])
    expect(from_repo(atoms) == case['atoms'], "optimising changed the meaning that was handed in", before=case['atoms'], after=atoms)
    expect(isinstance(iterations, dict) and len(iterations) > 0, "no iterations", iterations=iterations)
    optimised = list(iterations.values())[-1]
    image = from_repo(optimised)
    expect(isinstance(image, list) and all(isinstance(a, tuple) for a in image), "the optimised meaning is not a list of atoms", meaning=image)
    answers = project(solver.solve(optimised), roots)
    expect(bindings_equal(answers, original), "optimisation changed the answers", atoms=case['atoms'], optimised=image, roots=roots,
           answers=answers, expected=original, sizes=case['sizes'])
    expect(from_repo(atoms) == case['atoms'], "executing the optimised meaning changed the original", before=case['atoms'])
    # atoms are kept
    before_names, after_names = [], []
    before, after = canonical(flatten(case['atoms']), before_names), canonical(flatten(image), after_names)
    expect(before == after and sorted(before_names) == sorted(after_names), "optimisation lost, duplicated or invented atoms", atoms=case['atoms'], optimised=image)

    if image != case['atoms']:
        rec.label("changed")
    if any(a[0] == 'scoped' for a in image if a not in case['atoms']):
        rec.label("isolated")
    if flatten(image) != flatten(case['atoms']):
        rec.label("reordered")
    if before_names:
        rec.label("names")
    if len(set(before)) < len(before):
        rec.label("equal atoms")
    if any(nested(a) and RESULT_ARGS.get(a[0]) and i < len(case['atoms']) - 1 for i, a in enumerate(case['atoms'])):
        rec.label("result of a scope used later")
    rec.label("answers" if reference else "no answers", f"{len(roots)} roots")
    rec.interesting(image != case['atoms'] and bool(reference))


PARTS = [Part("equivalence", cases, check, quick=6000, thorough=200000), Part("chains", chains, check, quick=4000, thorough=100000)]
