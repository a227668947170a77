"""C20: dialog contexts are active exactly between their start and end."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import to_repo
from vlib.runner import Part

RULE = ("Random histories of starting, ending, entering (nested, same name, bodies that fail, raise, have many solutions, or use outer "
        "variables) and querying contexts, storing and querying dialog facts, and clearing; probes inside the bodies record what is active "
        "there. Compared with a set and a list as model. Non-trivial: a with_context inside which a probe ran, and which was nested, "
        "already active, failed or raised.")
ASSUMPTIONS = ["context names and facts are text", "bodies do not start, end or clear contexts themselves"]

NAMES = ["question", "statement", "a", "A", "it's", "", "%", "_", "'; DELETE FROM context; --", "é", "1"]


class Boom(Exception):
    pass


@st.composite
def bodies(draw, names, depth):
    """[atom]: ('probe',) ('hit', name) ('many',) ('never',) ('raise',) ('fact', e, t) ('with', name, body)"""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['probe', 'probe', 'hit', 'many', 'fact', 'with', 'with', 'with', 'never', 'raise']))
        if kind == 'with' and depth > 0:
            inner = draw(bodies(names, depth - 1))
            out.append(('with', draw(st.sampled_from(names)), inner, draw(st.booleans())))
        elif kind == 'hit':
            out.append(('hit', draw(st.sampled_from(names))))
        elif kind == 'fact':
            out.append(('fact', draw(st.sampled_from(names)), draw(st.sampled_from(names))))
        elif kind in ('many', 'never', 'raise'):
            out.append((kind,))
            if kind != 'many':
                return out
        out.append(('probe',))
    return out


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        kind = draw(st.sampled_from(['start', 'start', 'end', 'with', 'with', 'with', 'query', 'fact', 'isa', 'clear']))
        if kind == 'with':
            ops.append(('with', draw(st.sampled_from(names)), draw(bodies(names, 2)), draw(st.booleans())))
        elif kind in ('start', 'end', 'query'):
            ops.append((kind, draw(st.sampled_from(names)), draw(st.booleans())))
        elif kind == 'fact':
            ops.append((kind, draw(st.sampled_from(names)), draw(st.sampled_from(names))))
        elif kind == 'isa':
            ops.append((kind, draw(st.sampled_from(names + ['?X'])), draw(st.sampled_from(names + ['?Y', '?X']))))
        elif draw(st.integers(0, 2)) == 0:
            ops.append(('clear',))
    return dict(names=names, ops=ops)


class Model:
    def __init__(self):
        self.active, self.facts = frozenset(), []
        self.probes = []
        self.special = False

    def body(self, atoms, active):
        """runs the atoms for one solution; raises Boom"""
        if not atoms:
            return
        atom, rest = atoms[0], atoms[1:]
        if atom[0] == 'probe':
            self.probes.append(active)
            self.body(rest, active)
        elif atom[0] == 'hit':
            if atom[1] in active:
                self.body(rest, active)
        elif atom[0] == 'many':
            self.body(rest, active)
            self.body(rest, active)
        elif atom[0] == 'fact':
            self.facts.append(atom[1:])
            self.body(rest, active)
        elif atom[0] == 'with':
            self.special = True
            self.body(atom[2], active | {atom[1]})
            self.body(rest, active)
        elif atom[0] == 'raise':
            self.special = True
            raise Boom
        else:
            self.special = True


def atoms_of(body, counter):
    out = []
    for a in body:
        if a[0] == 'fact':
            out.append(('store', [('dialog_isa',) + a[1:]]))
        elif a[0] == 'hit':
            out.append(('context', a[1]))
        elif a[0] == 'many':
            counter[0] += 1
            out.append(('many', f'?M{counter[0]}'))
        elif a[0] == 'with':
            out.extend(with_atoms(a, counter))
        else:
            out.append(a)
    return out


def with_atoms(op, counter):
    """with_context, its name written or in a variable"""
    if op[3]:
        counter[0] += 1
        name = f'?N{counter[0]}'
        return [('equals', name, op[1]), ('with_context', name, atoms_of(op[2], counter))]
    return [('with_context', op[1], atoms_of(op[2], counter))]


def check(case, rec):
    from richard.core.Model import Model as RichardModel
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicDialogContext import BasicDialogContext

    probes = []

    def active(solver):
        rows = [b['C'] for b in solver.solve([('context', Variable('C'))])]
        found = frozenset(rows)
        for name in case['names']:
            holds = solver.solve([('context', name)])
            expect((name in found) == (len(holds) > 0), "asking for one context disagrees with the list of contexts", name=name, active=rows)
        return found

    class Probes(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("probe", query_function=self.probe, arguments=[]))
            self.add_relation(Relation("many", query_function=lambda v, c: [[1], [2]], arguments=["x"]))
            self.add_relation(Relation("never", query_function=lambda v, c: [], arguments=[]))
            self.add_relation(Relation("raise", query_function=self.boom, arguments=[]))

        def probe(self, values, context):
            probes.append(active(context.solver))
            return [[]]

        def boom(self, values, context):
            raise Boom()

    dialog = BasicDialogContext()
    solver = Solver(RichardModel([Probes(), dialog]))
    model = Model()
    for n, op in enumerate(case['ops']):
        history = case['ops'][:n + 1]
        if op[0] in ('start', 'end'):
            model.active = model.active | {op[1]} if op[0] == 'start' else model.active - {op[1]}
            name = '?N' if op[2] else op[1]
            found = solver.solve(to_repo(([('equals', '?N', op[1])] if op[2] else []) + [(op[0] + '_context', name)]))
            expect(len(found) == 1, "starting or ending a context does not succeed once", op=op, found=found)
        elif op[0] == 'query':
            found = solver.solve([('context', op[1])])
            expect(len(found) == (1 if op[1] in model.active else 0), "a context does not hold exactly from its start to its end", context=op[1],
                   found=found, active=sorted(model.active), history=history)
        elif op[0] == 'with':
            del probes[:]
            model.probes, model.special = [], op[1] in model.active
            raised, wanted = None, None
            try:
                model.body(op[2], model.active | {op[1]})
            except Boom:
                wanted = Boom
            try:
                found = solver.solve(to_repo(with_atoms(op, [0])))
                expect(len(found) == 1, "a with_context does not succeed once", found=found, history=history)
            except Boom:
                raised = Boom
            expect(raised == wanted, "an error of the body is not passed on", history=history)
            expect(probes == model.probes, "the wrong contexts are active inside a with_context", found=[sorted(p) for p in probes],
                   expected=[sorted(p) for p in model.probes], history=history)
            rec.label("body raises" if wanted else "body", *(["active already"] if op[1] in model.active else []))
            rec.interesting(model.probes and model.special)
        elif op[0] == 'fact':
            model.facts.append(op[1:])
            solver.solve([('store', [('dialog_isa',) + op[1:]])])
        elif op[0] == 'isa':
            rows = [r for r in model.facts if all(isinstance(t, str) and t[:1] == '?' or t == v for t, v in zip(op[1:], r)) and (op[1] != op[2] or r[0] == r[1])]
            names = [t[1:] for t in op[1:] if t[:1] == '?']
            wanted = {tuple(sorted(dict((t[1:], v) for t, v in zip(op[1:], r) if t[:1] == '?').items())) for r in rows}
            found = solver.solve([to_repo(('dialog_isa',) + op[1:])])
            expect({tuple(sorted(b.items())) for b in found} == wanted and len(found) == len(wanted), "the facts of the dialog context are not those stored since it was cleared",
                   query=op, found=found, expected=sorted(wanted), history=history)
        else:
            dialog.clear()
            model.active, model.facts = frozenset(), []
            rec.label("clear")
        expect(active(solver) == model.active, "the wrong contexts are active", found=sorted(active(solver)), expected=sorted(model.active), history=history)


PARTS = [Part("histories", cases, check, quick=5000, thorough=120000)]
