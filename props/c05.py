"""C05: composition shares variables exactly where the grammar shares them."""
from hypothesis import strategies as st

from vlib.case import Discard, expect, fail
from vlib.grammar import NAMES, Reference, VARS, make_simple_grammar, sentences
from vlib.runner import Part
from vlib.semantics import Renaming, RefVar, function, resolve

RULE = ("Random grammars whose rules carry random semantics (nested atom lists, free variables at any depth, reified variables, "
        "templates that parents apply, regexp values), dialog facts and executable atoms, all over a small set of clashing "
        "variable names; every sentence of a sequence is composed and compared, up to a one-to-one renaming, with a reference "
        "that gives every rule application its own variables. Non-trivial: a tree of at least three rule applications in which "
        "two applications use the same variable name.")
RULE += " Part `long` composes one sentence hundreds to thousands of times in one dialogue."
ASSUMPTIONS = ["antecedent variables are distinct", "reified variables also occur as variables of the rule",
               "variable names do not start with $"]


@st.composite
def atoms(draw, depth, variables, reified, kids, values, template, body):
    """a list of elements"""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['atom', 'atom', 'atom', 'kid', 'kid', 'body']))
        if kind == 'kid' and kids:
            k, is_template = draw(st.sampled_from(kids))
            if is_template:
                out.append(('$apply', k, draw(atoms(depth - 1, variables, reified, [], values, False, False)) if depth > 0 else []))
            else:
                out.append(('$splice', k))
        elif kind == 'body' and body:
            out.append('$body')
        else:
            terms = []
            for _ in range(draw(st.integers(0, 3))):
                t = draw(st.sampled_from(['var', 'var', 'var', 'const', 'reif', 'list', 'val', 'mix']))
                if t == 'list' and depth > 0:
                    terms.append(draw(atoms(depth - 1, variables, reified, kids, values, template, body)))
                elif t == 'reif' and reified:
                    terms.append('!' + draw(st.sampled_from(reified)))
                elif t == 'val' and values:
                    terms.append(('$val', draw(st.sampled_from(values))))
                elif t == 'mix':
                    # a list of values and variables
                    one = st.sampled_from([1, 'x', 'E1', None] + ['?' + v for v in variables] + ['!' + v for v in reified])
                    terms.append(('$mix', draw(st.lists(one, min_size=1, max_size=5))))
                elif t == 'const':
                    terms.append(draw(st.sampled_from([1, 'x', 0, 'E1', None])))
                else:
                    terms.append('?' + draw(st.sampled_from(variables)))
            out.append(tuple([draw(st.sampled_from(['p', 'q', 'not']))] + terms))
    return out


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    keys = [('s', draw(st.sampled_from([0, 1, 1, 2, 3])))] + [(n, draw(st.sampled_from([1, 1, 2, 3]))) for n in names]
    template = {k: k[0] != 's' and draw(st.integers(0, 3)) == 0 for k in keys}
    pool = draw(st.sampled_from([VARS[:2], VARS[:3], VARS[:3], VARS]))
    rules = []
    for n, key in enumerate(keys):
        for r in range(draw(st.sampled_from([1, 1, 2]))):
            size = draw(st.sampled_from([1, 2, 2, 3]))
            items = []
            # a word makes the rules distinct, so that parses are (mostly) unique
            items.append(('word', f"{key[0]}{r}", False))
            for _ in range(size):
                kind = draw(st.sampled_from(['cat', 'cat', 'cat', 're', 'none']))
                targets = keys[1:] if r else keys[n + 1:]
                if kind == 'cat' and targets:
                    name, arity = draw(st.sampled_from(targets))
                    items.append(('cat', name, draw(st.lists(st.sampled_from(pool), min_size=arity, max_size=arity))))
                elif kind == 're':
                    items.append(('re', r"\d+"))
            ant = draw(st.lists(st.sampled_from(VARS if len(pool) < key[1] else pool), min_size=key[1], max_size=key[1], unique=True))
            own = list(dict.fromkeys(ant + [v for it in items if it[0] == 'cat' for v in it[2]]))
            kids, values = [], []
            k = 0
            for it in items:
                if it[0] == 'cat':
                    kids.append((k, template[(it[1], len(it[2]))]))
                    k += 1
                elif it[0] == 're':
                    values.append(k)
                    k += 1
            variables = list(dict.fromkeys(own + pool))
            spec = draw(atoms(2, variables, own, kids, values, template[key], template[key]))
            same = [k for k, is_template in kids if is_template == template[key]]
            if same and draw(st.integers(0, 5)) == 0:
                spec = ('$same', draw(st.sampled_from(same)))
            rule = dict(ant=(key[0], ant), items=items, seps=[' '] * (len(items) - 1), sem=spec, template=template[key])
            # dialog is a list of atoms or a function of the children
            rule['call'] = draw(st.booleans())
            for part in ('dialog', 'exec'):
                if draw(st.integers(0, 2)) == 0:
                    rule[part] = draw(atoms(1, variables, own, [], values if part == 'exec' or rule['call'] else [], False, False))
            rules.append(rule)
    texts = [draw(sentences(rules, depth=4)) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        texts.append(texts[0])
    return dict(rules=rules, texts=texts)


def library_grammar(rules):
    grammar = make_simple_grammar(rules, sem=False)
    for number, (g, rule) in enumerate(zip(grammar, rules)):
        g['sem'] = function(rule['sem'], rule['template'])
        g['sem'].number = number
        if 'dialog' in rule:
            g['dialog'] = function(rule['dialog']) if rule['call'] else function(rule['dialog'])()
        if 'exec' in rule:
            g['exec'] = function(rule['exec'])
    return grammar


def compose(node, rules, incoming, log):
    """reference composition of a parse tree"""
    rule = rules[node.rule.sem.number]
    scope = dict(zip(rule['ant'][1], incoming))
    log.append((node.rule.sem.number, scope))
    children = []
    inferences, executable = [], []
    items = rule['items']
    tokens = []
    for i, item in enumerate(items):
        if i:
            tokens.append(None)
        tokens.append(item)
    for child, item in zip(node.children, tokens):
        if item is None or item[0] == 'word':
            continue
        if item[0] == 're':
            children.append(child.form)
            continue
        args = []
        for v in item[2]:
            if v not in scope:
                scope[v] = RefVar(v)
            args.append(scope[v])
        semantics, inf, exe = compose(child, rules, args, log)
        children.append(semantics)
        inferences += inf
        executable += exe
    semantics = resolve(rule['sem'], scope, children)
    if 'dialog' in rule:
        inferences = inferences + resolve(rule['dialog'], scope, children)
    if 'exec' in rule:
        executable = executable + resolve(rule['exec'], scope, children)
    return semantics, inferences, executable


def count_nodes(node):
    return 1 + sum(count_nodes(c) for c in node.children if c.form == "")


def names_in(x, out):
    from richard.entity.Variable import Variable
    if isinstance(x, Variable):
        out.add(x.name)
    elif isinstance(x, (list, tuple)):
        for y in x:
            names_in(y, out)
    return out


def check(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer

    rules = case['rules']
    grammar = SimpleGrammarRulesParser().parse_read_grammar(library_grammar(rules))
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    used = set()
    for text in case['texts']:
        if Reference(rules, text).total() > 20:
            rec.label("skipped: too ambiguous")
            continue
        request = SentenceRequest(text)
        products = parser.process(request).products
        expect(products, "a sentence of the grammar was not parsed", text=text)
        for product in products[:4]:
            request.set_current_product(parser, product)
            tree = product.parse_tree
            result = composer.process(request)
            expect(result.error_type == "" and len(result.products) == 1, "composition did not give one product", text=text)
            out = result.products[0]
            actual = out.get_semantics_last_iteration()

            root = rules[tree.rule.sem.number]
            incoming = [RefVar(v) for v in root['ant'][1]]
            log = []
            semantics, inferences, executable = compose(tree, rules, incoming, log)
            renaming = Renaming()
            expect(len(out.return_variables) == len(incoming), "wrong number of return variables", returned=out.return_variables)
            problem = None
            for var, name in zip(incoming, out.return_variables):
                problem = problem or renaming.pair(var, name)
            problem = problem or renaming.match(semantics, actual)
            if not problem:
                problem = renaming.match(inferences, list(out.inferences))
                problem = problem and "in the inferences: " + problem
            if not problem:
                problem = renaming.match(executable, list(out.executable))
                problem = problem and "in the executable atoms: " + problem
            if problem:
                fail("variables of the composed meaning are not shared as the grammar says: " + problem, text=text,
                     syntax=[g['syn'] for g in make_simple_grammar(rules)], semantics=actual, inferences=out.inferences, executable=out.executable)
            names = names_in([actual, out.inferences, out.executable], set()) | set(out.return_variables)
            expect(not names & used, "a variable is shared with an earlier sentence", text=text, variables=sorted(names & used))
            used |= names
            # the same formal name used by two applications for different variables
            formal = {}
            for _, scope in log:
                for name, var in scope.items():
                    formal.setdefault(name, set()).add(id(var))
            clash = any(len(v) > 1 for v in formal.values())
            rec.label("depth>=3" if count_nodes(tree) >= 3 else "small tree")
            if clash:
                rec.label("same name, different variables")
            if any(n for n, (a, _) in enumerate(log) if a in [b for b, _ in log[:n]]):
                rec.label("rule applied twice")
            if any(rules[a]['template'] for a, _ in log):
                rec.label("template")
            rec.interesting(clash and count_nodes(tree) >= 3)


# ---------------------------------------------------------------- long dialogues

@st.composite
def long_cases(draw):
    arity = draw(st.integers(1, 3))
    return dict(arity=arity, inner=draw(st.integers(0, 3)), free=draw(st.integers(0, 2)), sentences=draw(st.sampled_from([400, 1200, 3000])))


def check_long(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.entity.Variable import Variable
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer

    head = [f"A{i}" for i in range(case['arity'])]
    inner = [f"B{i}" for i in range(case['inner'])]
    own = head + inner + [f"F{i}" for i in range(case['free'])]
    syntax = f"s({', '.join(head)}) -> 'x'" + "".join(f"+n({v})" for v in inner)
    grammar = [{'syn': syntax, 'sem': lambda *args: [tuple(['r'] + [Variable(v) for v in own])]}, {'syn': "n(E1) -> 'y'", 'sem': lambda: []}]
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(grammar))
    composer = SemanticComposer(parser)
    request = SentenceRequest("x" + "y" * case['inner'])
    request.set_current_product(parser, parser.process(request).products[0])
    used = set()
    for n in range(case['sentences']):
        out = composer.process(request).products[0]
        names = [v.name for v in out.get_semantics_last_iteration()[0][1:]]
        expect(len(set(names)) == len(own) and names[:len(head)] == list(out.return_variables), "variables of one sentence are shared", sentence=n, names=names)
        expect(not used & set(names), "a variable is shared with an earlier sentence", sentence=n, names=names)
        used |= set(names)
    rec.label(f"{case['sentences']} sentences")
    rec.interesting(len(used) > 1000)


PARTS = [Part("renaming", cases, check, quick=5000, thorough=120000),
         Part("long", long_cases, check_long, quick=40, thorough=200, steps=20000000)]
