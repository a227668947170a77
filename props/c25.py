"""C25: ordered sets and counted iterators behave like their models."""
import sys

from hypothesis import strategies as st

from vlib.case import expect, fail
from vlib.lang import freeze
from vlib.runner import Part

RULE = ("Part `sets`: random histories of all operations of a mutable set (add, discard, remove, pop, clear, in-place and binary algebra with sets, ordered sets and lists, comparison, "
        "indexing, membership, iteration, printing, copying) on up to three ordered sets, compared after each step with duplicate-free lists. Part `counted`: counted "
        "iterators with sizes from 0 to the largest length Python allows, interleaving length, counting through the solver and enumeration. "
        "Non-trivial: an element was added again or removed and added again, in a set of at least two / partial enumeration before the length was asked.")
ASSUMPTIONS = ["elements are hashable", "indices are not negative", "a counted iterator is enumerated once, and its number fits a Python length"]

VALUES = [1, 2, 3, 0, True, 1.0, '1', 'a', 'b', '', 'a, b', None, (1, 2), (1, 'a'), ('x',), "é"]
OPS = ['add'] * 6 + ['discard'] * 3 + ['remove', 'remove', 'pop', 'clear', 'ior', 'iand', 'isub', 'ixor', 'or', 'sub', 'and', 'xor', 'copy', 'compare', 'compare', 'index', 'in']


@st.composite
def set_cases(draw):
    pool = draw(st.lists(st.sampled_from(VALUES), min_size=1, max_size=6))
    element = st.sampled_from(pool)
    some = st.lists(element, max_size=6)
    start = [draw(some) for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for _ in range(draw(st.integers(1, 15))):
        op = draw(st.sampled_from(OPS))
        who = draw(st.integers(0, len(start) - 1))
        if op in ('add', 'discard', 'remove', 'in'):
            ops.append((op, who, draw(element)))
        elif op == 'index':
            ops.append((op, who, draw(st.integers(0, 8))))
        elif op in ('pop', 'clear', 'copy'):
            ops.append((op, who, None))
        else:
            kind = draw(st.sampled_from(['set', 'other', 'list']))
            ops.append((op, who, (kind, draw(st.integers(0, len(start) - 1)) if kind == 'other' else draw(some))))
    return dict(start=start, kind=draw(st.sampled_from(['list', 'tuple', 'iterator'])), ops=ops)


def unique(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def check_sets(case, rec):
    from richard.type.OrderedSet import OrderedSet
    make = dict(list=list, tuple=tuple, iterator=iter)[case['kind']]
    real = [OrderedSet(make(items)) if items else OrderedSet() for items in case['start']]
    model = [unique(items) for items in case['start']]
    again = any(len(m) < len(items) and len(m) > 1 for m, items in zip(model, case['start']))
    removed = [[] for _ in real]

    def compare(s, m, after):
        expect(freeze(list(s)) == freeze(m), "the order or the elements differ from the list", after=after, found=list(s), expected=m)
        expect(len(s) == len(m) and bool(s) == bool(m), "wrong size", after=after, found=len(s), expected=len(m))
        for i, x in enumerate(m):
            expect(freeze(s[i]) == freeze(x), "wrong element at index", after=after, index=i, found=s[i], expected=x)
        for x in VALUES:
            expect((x in s) == (x in m), "wrong membership", after=after, element=x, elements=m)
        text = "{" + ", ".join(str(x) for x in m) + "}"
        expect(str(s) == text and text in repr(s), "wrong text", after=after, found=[str(s), repr(s)], expected=text)

    for s, m in zip(real, model):
        compare(s, m, 'start')
    for op, who, arg in case['ops']:
        s, m = real[who], model[who]
        before = [list(x) for x in model]
        if op == 'add':
            s.add(arg)
            if arg in m:
                again = again or len(m) > 1
            else:
                again = again or (arg in removed[who] and len(m) > 0)
                m.append(arg)
        elif op == 'discard':
            s.discard(arg)
            if arg in m:
                m.remove(arg)
                removed[who].append(arg)
        elif op == 'remove':
            try:
                s.remove(arg)
                expect(arg in m, "an absent element was removed", element=arg, elements=m)
                m.remove(arg)
                removed[who].append(arg)
            except KeyError:
                expect(arg not in m, "a present element could not be removed", element=arg, elements=m)
        elif op == 'pop':
            try:
                x = s.pop()
                expect(x in m, "popped something that was not in the set", popped=x, elements=m)
                m.remove(x)
            except KeyError:
                expect(not m, "nothing to pop", elements=m)
        elif op == 'clear':
            s.clear()
            m.clear()
        elif op == 'copy':
            copied = OrderedSet(s)
            copied.add('new')
            copied.discard(m[0] if m else None)
        elif op == 'index':
            try:
                x = s[arg]
                expect(arg < len(m) and freeze(x) == freeze(m[arg]), "wrong element at index", index=arg, found=x, elements=m)
            except IndexError:
                expect(arg >= len(m), "index refused", index=arg, elements=m)
        elif op == 'in':
            expect((arg in s) == (arg in m), "wrong membership", element=arg, elements=m)
        else:
            kind, items = arg
            if kind == 'other':
                other, items = real[items], list(model[items])
            else:
                other = set(items) if kind == 'set' else list(items)
                items = list(other)
            if op in ('compare', 'or', 'sub', 'and', 'xor') and kind == 'list':
                expect(op != 'compare' or (s == other) is False, "equal to a list")
                other = OrderedSet(items)
            if op == 'compare':
                a, b = set(m), set(items)
                for name, found, wanted in (('==', s == other, a == b), ('!=', s != other, a != b), ('<=', s <= other, a <= b), ('<', s < other, a < b),
                                            ('>=', s >= other, a >= b), ('>', s > other, a > b), ('isdisjoint', s.isdisjoint(other), a.isdisjoint(b))):
                    expect(found == wanted, "wrong comparison", operator=name, left=m, right=items)
            elif op in ('or', 'sub', 'and', 'xor'):
                result = dict(zip(('or', 'sub', 'and', 'xor'), (lambda: s | other, lambda: s - other, lambda: s & other, lambda: s ^ other)))[op]()
                expect(isinstance(result, OrderedSet), "not an ordered set", type=type(result))
                if op == 'or':
                    compare(result, unique(m + items), op)
                elif op == 'sub':
                    compare(result, [x for x in m if x not in items], op)
                else:
                    wanted = [x for x in m if x in items] if op == 'and' else [x for x in m if x not in items] + [x for x in items if x not in m]
                    expect(set(result) == set(wanted) and len(result) == len(unique(wanted)), "wrong set", operator=op, left=m, right=items, found=list(result))
            elif op == 'ior':
                s |= other
                m[:] = unique(m + items)
            elif op == 'iand':
                s &= (set(items) if kind == 'list' else other)
                m[:] = [x for x in m if x in items]
            elif op == 'isub':
                s -= (set(items) if kind == 'list' else other)
                m[:] = [x for x in m if x not in items]
            elif op == 'ixor':
                s ^= (set(items) if kind == 'list' else other)
                if s is not other:
                    # what is added comes in the order of the other set
                    tail = [x for x in unique(list(s)) if x not in m]
                    expect(set(tail) == set(x for x in items if x not in m), "wrong set", operator=op, left=before[who], right=items, found=list(s))
                    m[:] = [x for x in m if x not in items] + tail
                else:
                    m.clear()
            real[who] = s
        for n, (s2, m2) in enumerate(zip(real, model)):
            compare(s2, m2, (op, who, arg) if n == who else f"{op} on another set")
        rec.label(op)
    rec.interesting(again)


# ---------------------------------------------------------------- counted iterators

@st.composite
def counted_cases(draw):
    number = draw(st.sampled_from([0, 1, 2, 3, 7, 10, 12, 101, 257, 1003, 1025, 4099, 10002, 10**6, 10**9, sys.maxsize]))
    ops = draw(st.lists(st.sampled_from(['len', 'next', 'next', 'count', 'bool', 'iter']), min_size=1, max_size=12))
    return dict(number=number, single=draw(st.sampled_from([[('E1', 1)], ['a'], [1], [], [[1, 2]], "x", "x1"])), ops=ops)


def check_counted(case, rec):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.ResultIterator import ResultIterator
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule

    number = case['number']
    iterator = ResultIterator(case['single'], number)
    seen = []

    class Many(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("many", arguments=['e'], query_function=lambda values, context: iterator))

    solver = Solver(Model([Many()]))
    for op in case['ops']:
        if op in ('len', 'bool', 'count') and seen and number > 1:
            rec.interesting()
        if op == 'len':
            expect(len(iterator) == number, "wrong length", found=len(iterator), number=number, taken=len(seen))
        elif op == 'bool':
            expect(bool(iterator) == (number > 0), "wrong truth value", number=number)
        elif op == 'count':
            found = solver.solve([('count', Variable('N'), [('many', Variable('E'))])])
            expect(found == [{'N': number}], "wrong count", found=found, number=number, taken=len(seen))
        elif op == 'iter':
            expect(iter(iterator) is not None, "not iterable")
        else:
            try:
                seen.append(next(iterator))
                expect(len(seen) <= number, "more results than its number", number=number, taken=len(seen))
            except StopIteration:
                expect(len(seen) == number, "fewer results than its number", number=number, taken=len(seen))
    if number <= 10002:
        seen += list(iterator)
        expect(len(seen) == number, "enumerates another number of results", number=number, found=len(seen))
        expect(len(list(iterator)) == 0, "goes on after the end", number=number)
    expect(len({repr(x) for x in seen}) == len(seen), "a result was enumerated twice", seen=seen[:20])
    expect(len(iterator) == number, "the length changed", found=len(iterator), number=number)
    rec.label(f"number {number}")


PARTS = [Part("sets", set_cases, check_sets, quick=10000, thorough=200000),
         Part("counted", counted_cases, check_counted, quick=3000, thorough=20000, steps=2000000)]
