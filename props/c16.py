"""C16: generated output follows the write grammar and the stored results."""
from hypothesis import strategies as st

from vlib.case import expect
from vlib.grammar import render_rule
from vlib.lang import freeze, is_var, to_repo
from vlib.refsolver import Ref
from vlib.runner import Part
from vlib.world import make_relation

RULE = ("Random write grammars (layered categories of any arity with several rules each, conditions over stored output and a small "
        "world, guarded recursion, optional constituents, text / value / format, post functions) and several rounds of storing results "
        "and generating, also rounds that fail; the output is compared with a reference interpreter of the grammar. Non-trivial: an "
        "output in which at least three rules were used, and some rule was passed over because its condition failed or because it "
        "was used before.")
ASSUMPTIONS = ["recursion is guarded by an acyclic relation", "no optional word forms (nothing says when they are written)",
               "the value of a variable that neither the antecedent nor the condition binds is the empty text"]

VALUES = ["a", "b", "c", 1, 2, 0, "", "x y", "it's", "É", "a ", " b", "\n"]
LISTS = [["a"], ["b", "a"], []]
WORLD = {'age': 2, 'big': 1, 'friend': 2, 'next': 2}
BUFFER = {'output_type': 1, 'output_value': 1, 'output_pair': 2, 'output_empty': 0}
AVARS = ['A', 'B']
CVARS = ['E1', 'E2', 'E3']
POSTS = {'mark': lambda out: "<" + str(out) + ">", 'len': lambda out: len(str(out)), 'upper': lambda out: str(out).upper()}


class Boom(Exception):
    pass


def boom(*values):
    raise Boom("format function fails")


FORMATS = {'join': lambda *values: ",".join(str(v) for v in values), 'list': lambda *values: list(values), 'first': lambda *values: values[0],
           'none': lambda *values: None, 'boom': boom}


@st.composite
def conditions(draw, bound, size, values):
    bound = list(bound)
    atoms = []

    def term(prefer_bound):
        how = draw(st.sampled_from(['bound', 'bound', 'bound', 'new', 'new', 'const']))
        if how == 'bound' and bound:
            return '?' + draw(st.sampled_from(bound))
        if how == 'const':
            return draw(st.sampled_from(values))
        return '?' + draw(st.sampled_from(CVARS))

    def relation():
        name = draw(st.sampled_from(['age', 'big', 'friend', 'next', 'output_type', 'output_value', 'output_pair', 'output_empty']))
        return (name,) + tuple(term(True) for _ in range({**WORLD, **BUFFER}[name]))

    def note(atom):
        for t in atom[1:]:
            if is_var(t) and t[1:] not in bound:
                bound.append(t[1:])

    for _ in range(size):
        kind = draw(st.sampled_from(['rel', 'rel', 'rel', 'not', 'equals', 'or']))
        if kind == 'not':
            atoms.append(('not', [relation()]))
        elif kind == 'equals' and bound:
            atoms.append(('equals', '?' + draw(st.sampled_from(bound)), draw(st.sampled_from(values))))
        elif kind == 'or':
            atoms.append(('$disjunction', [[relation()], [relation()]]))
        else:
            atom = relation()
            atoms.append(atom)
            note(atom)
    return atoms, bound


@st.composite
def cases(draw):
    values = draw(st.lists(st.sampled_from(VALUES), min_size=3, max_size=5, unique_by=repr))
    world = {}
    for name, arity in WORLD.items():
        if name == 'next':
            pairs = [(x, y) for i, x in enumerate(values) for y in values[i + 1:]]
            world[name] = draw(st.lists(st.sampled_from(pairs), max_size=4))
        else:
            world[name] = draw(st.lists(st.tuples(*[st.sampled_from(values)] * arity), max_size=4))

    layers = [('s', 0)]
    for name in draw(st.lists(st.sampled_from(["np", "vp", "n", "rest"]), min_size=1, max_size=4, unique=True)):
        for arity in draw(st.sampled_from([[0], [1], [1], [1], [2], [1, 2]])):
            layers.append((name, arity))
    rules = []
    for depth, key in enumerate(layers):
        if depth and draw(st.integers(0, 9)) == 0:
            continue        # a category without rules
        count = draw(st.sampled_from([1, 2, 2, 3, 4]))
        for number in range(count):
            ant = draw(st.permutations(AVARS))[:key[1]]
            # often the last rule is for all other cases
            size = 0 if number == count - 1 and draw(st.integers(0, 9)) < 7 else draw(st.sampled_from([0, 1, 1, 1, 2, 2]))
            cond, bound = draw(conditions(ant, size, values))
            if not bound and depth + 1 < len(layers) and draw(st.integers(0, 4)):
                # something to talk about
                cond = cond + [(draw(st.sampled_from(['output_value', 'output_type', 'big'])), '?E5')]
                bound = ['E5']
            if draw(st.integers(0, 9)) == 9:
                bound = bound + ['E6']      # is not bound
            items = []
            recursive = key[0] != 's' and key[1] >= 1 and draw(st.integers(0, 5)) == 0
            if recursive:
                fresh = 'E4'
                cond = cond + [('next', '?' + ant[0], '?' + fresh)]
            fmt = draw(st.sampled_from([None, None, None, 'join', 'list', 'first', 'join', 'first', 'join', 'none', 'boom']))
            for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3]))):
                kind = draw(st.sampled_from(['word', 'text', 'value', 'format'] + ['cat'] * (8 if depth < 2 else 4)))
                below = layers[depth + 1:]
                if kind == 'cat' and below:
                    name, arity = draw(st.sampled_from(below))
                    if arity and not bound:
                        items.append(('word', draw(st.sampled_from(["x", "y z"])), False))
                        continue
                    items.append(('cat', name, [draw(st.sampled_from(bound)) for _ in range(arity)], draw(st.integers(0, 2)) == 0))
                elif kind == 'text' and bound:
                    items.append(('cat', 'text', [draw(st.sampled_from(bound))], False))
                elif kind == 'value' and bound:
                    items.append(('cat', 'value', [draw(st.sampled_from(bound))], False))
                elif kind == 'format' and bound and fmt:
                    items.append(('cat', 'format', [draw(st.sampled_from(bound)) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4])))], False))
                else:
                    items.append(('word', draw(st.sampled_from(["x", "y z", "it's", "Z."])), False))
            if recursive:
                items.append(('cat', key[0], [fresh] + [draw(st.sampled_from(ant)) for _ in ant[1:]], draw(st.booleans())))
            rules.append(dict(ant=(key[0], ant), items=items, seps=[draw(st.sampled_from([' ', ' ', '+', '~'])) for _ in items[1:]], cond=cond,
                              format=fmt, post=draw(st.sampled_from([None, None, None, None, 'mark', 'len', 'upper']))))
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        rows = {}
        for name, arity in BUFFER.items():
            pool = st.sampled_from(values + (draw(st.lists(st.sampled_from(LISTS), max_size=1)) if name == 'output_value' else []))
            rows[name] = draw(st.lists(st.tuples(*[pool] * arity), min_size=draw(st.sampled_from([0, 1, 1])), max_size=3))
        rounds.append(rows)
    if draw(st.booleans()):
        rounds.append(rounds[0])
    return dict(world=world, rules=rules, rounds=rounds)


class NoRule(Exception):
    pass


class Interpreter:
    def __init__(self, rules, ref):
        self.rules, self.ref = rules, ref
        self.used = []
        self.passed = 0

    def pick(self, name, values):
        again = None
        for number, rule in enumerate(self.rules):
            if rule['ant'][0] != name or len(rule['ant'][1]) != len(values):
                continue
            start = dict(zip(rule['ant'][1], values))
            found = self.ref.solve(rule['cond'], start)
            if not found:
                self.passed += 1
                continue
            if number not in self.used:
                return number, found[0]
            self.passed += 1
            again = (number, found[0])
        return again

    def expand(self, name, values):
        picked = self.pick(name, values)
        if picked is None:
            return None
        number, binding = picked
        self.used.append(number)
        if len(self.used) > 60:
            raise RecursionError
        rule = self.rules[number]
        parts = []
        for i, item in enumerate(rule['items']):
            if i and rule['seps'][i - 1] != '+':
                parts.append(" ")
            if item[0] == 'word':
                parts.append(item[1])
                continue
            args = [binding.get(v, '') for v in item[2]]
            if item[1] == 'text':
                parts.append(str(args[0]))
            elif item[1] == 'value':
                parts.append(args[0])
            elif item[1] == 'format':
                parts.append(FORMATS[rule['format']](*args))
            else:
                part = self.expand(item[1], args)
                if part is None:
                    if not item[3]:
                        raise NoRule
                    part = [""]
                parts.append(part[0])
        if all(isinstance(p, str) for p in parts):
            result = "".join(parts)
        elif len(parts) == 1:
            result = parts[0]
        else:
            result = parts
        if rule['post']:
            result = POSTS[rule['post']](result)
        return [result]


def library_rules(rules):
    out = []
    for r in rules:
        items = [it[:3] for it in r['items']]
        # optional categories are marked in the text of the rule
        text = render_rule(dict(ant=r['ant'], items=[], seps=[]))
        for i, (item, full) in enumerate(zip(items, r['items'])):
            if i:
                text += r['seps'][i - 1]
            if item[0] == 'word':
                text += "'" + item[1].replace("'", "\\'") + "'"
            else:
                text += item[1] + "(" + ", ".join(item[2]) + ")" + ("?" if full[3] else "")
        g = dict(syn=text)
        if r['cond']:
            g['if'] = to_repo(r['cond'])
        if r['format']:
            g['format'] = FORMATS[r['format']]
        if r['post']:
            g['post'] = POSTS[r['post']]
        out.append(g)
    return out


def check(case, rec):
    import copy
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    class World(SomeModule):
        def __init__(self):
            super().__init__()
            for name, rows in case['world'].items():
                self.add_relation(make_relation('list', name, WORLD[name], rows))

    buffer = BasicOutputBuffer()
    buffer.add_relation(Relation("output_pair", arguments=["a", "b"]))
    buffer.add_relation(Relation("output_empty", arguments=[]))
    model = Model([World(), buffer])
    library = library_rules(case['rules'])
    generator = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(library), model, buffer)
    solver = Solver(model)
    for rows in case['rounds']:
        rows = copy.deepcopy(rows)
        for name, content in rows.items():
            for row in content:
                solver.solve([('store', [(name,) + row])])
        interpreter = Interpreter(case['rules'], Ref({**case['world'], **rows}))
        wanted, error = None, None
        try:
            wanted = interpreter.expand('s', [])
            if wanted is None:
                raise NoRule
        except (NoRule, Boom) as e:
            error = type(e)
        except RecursionError:
            rec.label("skipped: long output")
            buffer.clear()
            continue
        actual, raised = None, None
        try:
            actual = generator.generate_output()
        except Boom as e:
            raised = Boom
        except (TypeError, KeyError, IndexError, AttributeError, NameError):
            raise
        except Exception as e:
            raised = NoRule
        expect(raised == error, "generating output should (not) have failed", raised=raised, expected=error, output=actual, wanted=wanted,
               grammar=[g['syn'] for g in library], stored=rows)
        if error is None:
            expect(freeze(actual) == freeze(wanted[0]), "the output is not the one that the write grammar gives", output=actual, expected=wanted[0],
                   grammar=[(g['syn'], g.get('if')) for g in library], stored=rows, world=case['world'])
        for name, arity in BUFFER.items():
            left = solver.solve([(name,) + tuple(Variable(f"V{i}") for i in range(arity))])
            expect(left == [], "the output buffer is not empty after generating", left=left, failed=error)
        rec.label(f"{min(len(interpreter.used), 6)} rules used", "failed" if error else "output", "value" if error is None and not isinstance(wanted[0], str) else "text")
        if len(set(interpreter.used)) < len(interpreter.used):
            rec.label("rule used again")
        if any('E6' in item[2] for n in interpreter.used for item in case['rules'][n]['items'] if item[0] == 'cat'):
            rec.label("variable that is not bound")
        rec.interesting(error is None and len(interpreter.used) >= 3 and interpreter.passed > 0)


PARTS = [Part("grammars", cases, check, quick=8000, thorough=200000)]
