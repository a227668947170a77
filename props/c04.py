"""C04: parse ranking is a stable total preference over the same trees."""
from hypothesis import strategies as st

from vlib.case import Discard, expect
from vlib.grammar import Reference, grammars, make_simple_grammar, sentences
from vlib.runner import Part

RULE = ("Part `trees`: lists of random parse trees (boosts at any depth, regexp and word leaves, equal trees); part `parser`: "
        "ambiguous sentences of random grammars with boosts, ranked by BasicParser and compared with the unranked trees. "
        "Non-trivial: at least three trees with at least two different ranks.")
ASSUMPTIONS = ["sentences with more than 200 derivations are skipped"]


# tree = ('w', text) | ('r', text) | (boost, [children])
def tree_strategy():
    leaf = st.tuples(st.sampled_from(['w', 'w', 'r']), st.sampled_from(["a", "b", " ", "7", "12", "x1", "-", "é"]))
    return st.recursive(
        st.tuples(st.sampled_from([0, 0, 0, 1, -1, 2, 10, 0.5, -0.25]), st.lists(leaf, min_size=1, max_size=3)),
        lambda sub: st.tuples(st.sampled_from([0, 0, 0, 1, -1, 2, 0.25, -1000000]), st.lists(st.one_of(sub, sub, leaf), min_size=1, max_size=3)),
        max_leaves=7)


@st.composite
def tree_cases(draw):
    pool = draw(st.lists(tree_strategy(), min_size=3, max_size=6))
    size = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 9]))
    picks = draw(st.lists(st.integers(0, len(pool) - 1), min_size=size, max_size=size))
    return dict(pool=pool, picks=picks)


def rank(t):
    """(total boost, number of regexp leaves, depth)"""
    if isinstance(t[0], str):
        return (0, 1 if t[0] == 'r' else 0, 1)
    parts = [rank(c) for c in t[1]]
    return (t[0] + sum(p[0] for p in parts), sum(p[1] for p in parts), 1 + max(p[2] for p in parts))


def key(t):
    boost, regexps, depth = rank(t)
    return (-boost, regexps, -depth)


def build(t):
    from richard.core.constants import POS_TYPE_REG_EXP, POS_TYPE_RELATION, POS_TYPE_WORD_FORM
    from richard.entity.GrammarRule import GrammarRule
    from richard.entity.ParseTreeNode import ParseTreeNode
    from richard.entity.RuleConstituent import RuleConstituent
    if isinstance(t[0], str):
        kind = POS_TYPE_REG_EXP if t[0] == 'r' else POS_TYPE_WORD_FORM
        rule = GrammarRule(RuleConstituent(t[1], [], kind), [RuleConstituent(t[1], ["terminal"], POS_TYPE_WORD_FORM)])
        return ParseTreeNode(t[1], [], t[1], rule)
    children = [build(c) for c in t[1]]
    rule = GrammarRule(RuleConstituent("x", ["E1"], POS_TYPE_RELATION), [c.rule.antecedent for c in children], boost=t[0])
    return ParseTreeNode("x", children, "", rule)


def expect_ranked(inputs, outputs, keys, what):
    """outputs is the stable sort of inputs by key; trees are told apart by identity"""
    expect(isinstance(outputs, list), "the ranking is not a list", result=outputs)
    order = sorted(range(len(inputs)), key=lambda i: keys[i])
    position = {id(x): i for i, x in enumerate(inputs)}
    found = [position.get(id(x)) for x in outputs]
    expect(sorted(x for x in found if x is not None) == list(range(len(inputs))) and len(found) == len(inputs),
           "the ranking is not a permutation of the trees", what=what, found=found)
    expect(found == order, "wrong ranking of the trees", what=what, found=found, expected=order, keys=keys)


def check_trees(case, rec):
    from richard.processor.parser.tree_sort_heuristics.BasicParseTreeSortHeuristics import BasicParseTreeSortHeuristics
    specs = [case['pool'][i] for i in case['picks']]
    trees = [build(t) for t in specs]
    before = list(trees)
    result = BasicParseTreeSortHeuristics().sort_trees(trees)
    expect(len(trees) == len(before) and all(a is b for a, b in zip(trees, before)), "ranking changed the list it was given")
    keys = [key(t) for t in specs]
    expect_ranked(trees, result, keys, specs)
    again = BasicParseTreeSortHeuristics().sort_trees(result)
    expect([id(x) for x in again] == [id(x) for x in result], "ranking a ranked list changed it")
    different = len(set(keys))
    rec.label(f"{min(different, 4)} different ranks")
    for i, name in enumerate(["boost", "regexps", "depth"]):
        # the decisive component between some two trees
        if any(a[:i] == b[:i] and a[i] != b[i] for a in keys for b in keys):
            rec.label("decided by " + name)
    if different < len(keys):
        rec.label("ties")
    rec.interesting(len(keys) >= 3 and different >= 2)


@st.composite
def parser_cases(draw):
    rules = draw(grammars(boosts=True, words=["a", "b", "ab", "aa"], seps=('+', '+', '+', ' '), max_rules=4))
    return dict(rules=rules, text=draw(sentences(rules))[:20])


def spec_of(node):
    from richard.core.constants import POS_TYPE_REG_EXP
    if node.form != "":
        return ('r' if node.rule.antecedent.position_type == POS_TYPE_REG_EXP else 'w', node.form)
    return (node.rule.boost, [spec_of(c) for c in node.children])


def identity(node):
    if node.form != "":
        return (node.category, node.form)
    return (node.rule.sem(), tuple(identity(c) for c in node.children))


def boosts_ok(node, rules):
    if node.form == "":
        expect(node.rule.boost == rules[node.rule.sem()].get('boost', 0), "a tree node lost the boost of its rule", rule=str(node.rule))
        for c in node.children:
            boosts_ok(c, rules)


def check_parser(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.earley.EarleyParser import EarleyParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    rules, text = case['rules'], case['text']
    if Reference(rules, text).total() > 200 or "  " in text:
        raise Discard
    grammar = SimpleGrammarRulesParser().parse_read_grammar(make_simple_grammar(rules))
    plain = EarleyParser().parse(grammar, text).products
    products = BasicParser(grammar).process(SentenceRequest(text)).products
    ranked = [p.parse_tree for p in products]
    for tree in plain:
        boosts_ok(tree, rules)
    # the two parses make different node objects: identify trees by their content (derivations are unique)
    by_content = {identity(t): t for t in plain}
    expect(len(by_content) == len(plain), "a derivation was returned twice", text=text)
    unknown = [identity(t) for t in ranked if identity(t) not in by_content]
    expect(not unknown, "the ranked list contains a tree that is not a parse", text=text, trees=unknown[:2])
    keys = [key(spec_of(t)) for t in plain]
    expect_ranked(plain, [by_content[identity(t)] for t in ranked], keys, text)
    rec.label("1 tree" if len(plain) == 1 else "2-5 trees" if len(plain) < 6 else "6+ trees")
    rec.interesting(len(plain) >= 3 and len(set(keys)) >= 2)


PARTS = [Part("trees", tree_cases, check_trees, quick=6000, thorough=200000),
         Part("parser", parser_cases, check_parser, quick=3000, thorough=80000)]
