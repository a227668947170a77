"""
An independent evaluator for atom lists (see vlib.lang for the notation). Bindings are dicts from variable name (without ?)
to value. Answers come without duplicates.

Raises Ambiguous where the outcome legitimately depends on the order in which solutions are found.
"""
import math

from vlib.lang import is_var
from vlib.world import distinct, keyed, unify


class Ambiguous(Exception):
    pass


class Ref:
    def __init__(self, facts, rules=None):
        """facts: {predicate: [rows]};  rules: {predicate: [(head args, body)]} (non-circular)"""
        self.facts = facts
        self.rules = rules or {}
        self.fresh = 0

    # ------------------------------------------------------------ atoms

    def solve(self, atoms, binding):
        bindings = [binding]
        for atom in atoms:
            out = []
            for b in bindings:
                out.extend(self.atom(atom, b))
            bindings = distinct(out)
            if not bindings:
                return []
        return bindings

    def value(self, term, binding):
        if is_var(term):
            return binding.get(term[1:])
        return term

    def assign(self, term, value, binding):
        """the binding with the result in the (unbound) variable; a constant must be equal"""
        if is_var(term):
            if term[1:] in binding:
                return [binding] if same_number(binding[term[1:]], value) else []
            return [{**binding, term[1:]: value}]
        return [binding] if same_number(term, value) else []

    def atom(self, atom, b):
        name, args = atom[0], atom[1:]
        if name in self.facts or name in self.rules:
            return self.relation(name, args, b)
        return getattr(self, "p_" + name.replace('$', ''))(args, b)

    def relation(self, name, args, b):
        out = []
        for row in self.facts.get(name, []):
            e = unify(args, row, b)
            if e is not None:
                out.append(e)
        for head, body in self.rules.get(name, []):
            out.extend(self.rule(head, body, args, b))
        return out

    def rule(self, head, body, args, b):
        self.fresh += 1
        n = self.fresh
        # all variables of the rule renamed apart
        head, body = rename(head, n), rename(body, n)
        if len(head) != len(args):
            return []
        # values that are known on the calling side; atom lists keep the variables of the caller, so its binding stays in view
        start = dict(b)
        for h, a in zip(head, args):
            v = self.value(a, b)
            if v is None:
                continue
            if is_var(h):
                if h[1:] in start and not same(start[h[1:]], v):
                    return []
                start[h[1:]] = v
            elif not same(h, v):
                return []
        out = []
        for s in self.solve(body, start):
            row = [s[h[1:]] if is_var(h) else h for h in head]
            e = unify(args, row, b)
            if e is not None:
                out.append(e)
        return out

    def body(self, term, b):
        """an atom list, or a variable that stands for one"""
        return self.value(term, b)

    # ------------------------------------------------------------ scoped

    def p_disjunction(self, args, b):
        for alternative in args[0]:
            found = self.solve(alternative, b)
            if found:
                return found
        return []

    def p_not(self, args, b):
        return [] if self.solve(self.body(args[0], b), b) else [b]

    p_none = p_not

    def p_scoped(self, args, b):
        return [b] if self.solve(self.body(args[0], b), b) else []

    def p_det_equals(self, args, b):
        return [b] if len(self.solve(self.body(args[0], b), b)) == self.value(args[1], b) else []

    def p_det_greater_than(self, args, b):
        return [b] if len(self.solve(self.body(args[0], b), b)) > self.value(args[1], b) else []

    def p_det_less_than(self, args, b):
        return [b] if len(self.solve(self.body(args[0], b), b)) < self.value(args[1], b) else []

    def p_all(self, args, b):
        var = args[0][1:]
        entities = []
        for s in self.solve(args[1], b):
            if not any(same(s[var], e) for e in entities):
                entities.append(s[var])
        for e in entities:
            if not self.solve(args[2], {**b, var: e}):
                return []
        return [b if var in b else {**b, var: e} for e in entities]

    # ------------------------------------------------------------ aggregates

    def values(self, var, body, b):
        return [s[var[1:]] for s in self.solve(body, b)]

    def p_count(self, args, b):
        return self.assign(args[0], len(self.solve(self.body(args[1], b), b)), b)

    def p_sum(self, args, b):
        return self.assign(args[0], sum(self.values(args[1], args[2], b)), b)

    def p_avg(self, args, b):
        vs = self.values(args[1], args[2], b)
        return self.assign(args[0], sum(vs) / len(vs), b) if vs else []

    def p_percentage(self, args, b):
        top, bottom = len(self.solve(args[1], b)), len(self.solve(args[2], b))
        return self.assign(args[0], 100.0 * top / bottom, b) if bottom else []

    def extreme(self, args, b, pick):
        found = [(s[args[0][1:]], s[args[1][1:]]) for s in self.solve(args[2], b)]
        if not found:
            return []
        best = pick(v for _, v in found)
        winners = distinct([{'w': e} for e, v in found if v == best])
        if len(winners) > 1:
            raise Ambiguous
        return [{**b, args[0][1:]: winners[0]['w'], args[1][1:]: best}]

    def p_arg_min(self, args, b):
        return self.extreme(args, b, min)

    def p_arg_max(self, args, b):
        return self.extreme(args, b, max)

    # ------------------------------------------------------------ comparison

    def p_equals(self, args, b):
        x, y = self.value(args[0], b), self.value(args[1], b)
        if x is None:
            return [{**b, args[0][1:]: y}]
        if y is None:
            return [{**b, args[1][1:]: x}]
        return [b] if x == y else []

    def p_greater_than(self, args, b):
        return [b] if self.value(args[0], b) > self.value(args[1], b) else []

    def p_less_than(self, args, b):
        return [b] if self.value(args[0], b) < self.value(args[1], b) else []

    def p_multiply(self, args, b):
        return self.assign(args[2], self.value(args[0], b) * self.value(args[1], b), b)


def same(a, b):
    return type(a) is type(b) and a == b


def same_number(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    return same(a, b)


def rename(x, n):
    if is_var(x):
        return f"{x}#{n}"
    if isinstance(x, tuple):
        return tuple(rename(y, n) for y in x)
    if isinstance(x, list):
        return [rename(y, n) for y in x]
    return x


def bindings_equal(a, b):
    """equal as sets of bindings, numbers compared with a tolerance"""
    if keyed(a) == keyed(b):
        return True
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if x.keys() == y.keys() and all(same_number(x[k], y[k]) or x[k] == y[k] for k in x):
                del rest[i]
                break
        else:
            return False
    return True
