"""Random well-ordered queries over a small typed world: entities (X, Y, Z) and numbers (N, M, K)."""
from hypothesis import strategies as st

ENTITIES = ["a", "b", "c", "d"]
NUMBERS = [0, 1, 2, 3, 5, -1, 0.5, 2.5, -4, -0.5]
POOLS = [[0, -1, -4, -0.5], [0, 1, 0.5], [-1, -4, -0.5]]
EVARS = ['?X', '?Y', '?Z', '?W', '?V']
NVARS = ['?N', '?M', '?K']
SIGNATURE = {"p": "e", "q": "e", "r": "ee", "t": "ee", "age": "en", "size": "en", "u": "eee"}


@st.composite
def worlds(draw, signature=SIGNATURE, max_rows=6, functional=False):
    n = draw(st.integers(2, 4))
    ents = ENTITIES[:n]
    nums = draw(st.lists(st.sampled_from(draw(st.sampled_from([NUMBERS] * 5 + POOLS))), min_size=2, max_size=4, unique=True))
    data = {}
    for name, kinds in signature.items():
        columns = [st.sampled_from(ents if k == 'e' else nums) for k in kinds]
        data[name] = (len(kinds), draw(st.lists(st.tuples(*columns), max_size=max_rows)))
    return data


class Builder:
    """
    Builds atom lists left to right, so that comparisons and the like only use variables that are bound by then.
    features: which constructs may be used.
    """

    def __init__(self, draw, features, signature=SIGNATURE, depth=2, evars=EVARS, nvars=NVARS, consts=True, fresh_scopes=False, bound_all=False):
        self.draw, self.features, self.signature, self.depth = draw, features, signature, depth
        self.evars, self.nvars, self.consts = evars, nvars, consts
        self.used_results = 0
        self.bound_all = bound_all

    def pick(self, options):
        return self.draw(st.sampled_from(list(options)))

    def relation(self, bound, prefer=()):
        name = self.pick(sorted(self.signature))
        args = []
        for k in self.signature[name]:
            pool = self.evars if k == 'e' else self.nvars
            likely = [v for v in prefer if v in pool] + [v for v in pool if v in bound]
            how = self.draw(st.sampled_from(['old', 'old', 'any', 'any', 'const']))
            if how == 'old' and likely:
                args.append(self.pick(likely))
            elif how == 'const' and self.consts:
                args.append(self.pick(ENTITIES if k == 'e' else NUMBERS))
            else:
                args.append(self.pick(pool))
        atom = tuple([name] + args)
        return atom, bound | {a for a in args if isinstance(a, str) and a[:1] == '?'}

    def body(self, bound, depth, size=(1, 2), prefer=()):
        """a list for a nested scope: (atoms, variables bound inside)"""
        inside = set(bound)
        atoms = []
        for i in range(self.draw(st.integers(*size))):
            atom, inside = self.atom(inside, depth, first=(i == 0), prefer=prefer)
            atoms.append(atom)
        return atoms, inside

    def result_variable(self, bound):
        """a variable for a result: not bound, and not used anywhere else before"""
        self.used_results += 1
        return f"?R{self.used_results}"

    def atom(self, bound, depth, first=False, prefer=()):
        kind = 'rel'
        if depth > 0 and not (first and self.draw(st.integers(0, 1))):
            kind = self.draw(st.sampled_from(['rel', 'rel'] + list(self.features)))
        numbers = [v for v in self.nvars if v in bound] + [v for v in bound if v.startswith('?R')]
        entities = [v for v in self.evars if v in bound]
        if kind in ('greater_than', 'less_than'):
            if numbers:
                return (kind, self.pick(numbers), self.pick(numbers + NUMBERS)), bound
        elif kind == 'equals':
            pool = numbers if numbers and self.draw(st.booleans()) else entities
            if pool:
                other = pool + (NUMBERS if pool is numbers else ENTITIES)
                return ('equals', self.pick(pool), self.pick(other)), bound
        elif kind == 'multiply':
            if numbers:
                r = self.result_variable(bound)
                return ('multiply', self.pick(numbers), self.pick(numbers + NUMBERS), r), bound | {r}
        elif kind in ('not', 'none', 'scoped'):
            atoms, _ = self.body(bound, depth - 1, prefer=prefer)
            return (kind, atoms), bound
        elif kind in ('det_equals', 'det_greater_than', 'det_less_than'):
            atoms, _ = self.body(bound, depth - 1, prefer=prefer)
            number = self.pick([0, 1, 2, 3])
            return (kind, atoms, number), bound
        elif kind == 'all':
            free = [v for v in self.evars if v not in bound]
            nfree = [v for v in self.nvars if v not in bound]
            if self.bound_all and entities and self.draw(st.integers(0, 4)) == 4:
                # over a variable that has a value already
                free = entities
            functional = sorted(n for n, k in self.signature.items() if k == 'en')
            if nfree and functional and self.draw(st.integers(0, 3)) == 3:
                # over numbers
                var = self.pick(nfree)
                rng = [(self.pick(functional), self.pick((ENTITIES if self.consts else []) + entities + free[:2]) if self.consts or entities or free else '?E', var)]
                atoms, _ = self.body(bound | {var}, depth - 1, prefer=[var] + list(prefer))
                return ('all', var, rng, atoms), bound | {var}
            if free:
                var = self.pick(free)
                unary = sorted(n for n, k in self.signature.items() if k == 'e')
                binary = sorted(n for n, k in self.signature.items() if k == 'ee')
                if self.draw(st.booleans()) or not binary:
                    rng = [(self.pick(unary), var)]
                else:
                    rng = [(self.pick(binary), var, self.pick(ENTITIES + entities))]
                atoms, _ = self.body(bound | {var}, depth - 1, prefer=[var] + list(prefer))
                return ('all', var, rng, atoms), bound | {var}
        elif kind == 'disjunction':
            alternatives = [self.body(bound, depth - 1, prefer=prefer) for _ in range(self.draw(st.integers(1, 3)))]
            after = bound
            common = set.intersection(*[set(x[1]) for x in alternatives])
            return ('$disjunction', [x[0] for x in alternatives]), bound | common
        elif kind == 'count':
            atoms, _ = self.body(bound, depth - 1, prefer=prefer)
            r = self.result_variable(bound)
            return ('count', r, atoms), bound | {r}
        elif kind in ('sum', 'avg'):
            atoms, inside = self.numeric_body(bound, depth - 1, prefer)
            r = self.result_variable(bound)
            return (kind, r, self.element, atoms), bound | {r}
        elif kind == 'percentage':
            top, _ = self.body(bound, depth - 1, prefer=prefer)
            bottom, _ = self.body(bound, depth - 1, prefer=prefer)
            r = self.result_variable(bound)
            return ('percentage', r, top, bottom), bound | {r}
        elif kind in ('arg_min', 'arg_max'):
            free = [v for v in self.evars if v not in bound]
            nfree = [v for v in self.nvars if v not in bound]
            if free and nfree:
                var, n = self.pick(free), self.pick(nfree)
                functional = sorted(k for k, s in self.signature.items() if s == 'en')
                atoms = [(self.pick(functional), var, n)]
                more, _ = self.body(bound | {var, n}, depth - 1, size=(0, 1), prefer=[var])
                return (kind, var, n, atoms + more), bound | {var, n}
        return self.relation(bound, prefer)

    def numeric_body(self, bound, depth, prefer):
        """a body that binds a numeric variable, left in self.element"""
        free = [v for v in self.nvars if v not in bound]
        var = self.pick(free) if free else self.pick(self.nvars)
        functional = sorted(k for k, s in self.signature.items() if s == 'en')
        atoms = [(self.pick(functional), self.pick(self.evars), var)]
        more, inside = self.body(bound | {var, atoms[0][1]}, depth, size=(0, 1), prefer=prefer)
        self.element = var
        return atoms + more, inside

    def query(self, size=(1, 4), bound=()):
        bound = set(bound)
        atoms = []
        for i in range(self.draw(st.integers(*size))):
            atom, bound = self.atom(bound, self.depth, first=(i == 0))
            atoms.append(atom)
        return atoms, bound
