"""C01: the parser finds exactly the derivations of the sentence, each once."""
import re

from hypothesis import strategies as st

from vlib.case import Discard, expect
from vlib.grammar import WORDS, Reference, grammars, make_simple_grammar, texts, tree_of
from vlib.runner import Part

RULE = ("Random read grammars (1-4 categories with arities 0-2, left/right/centre recursion, ambiguity, words and regular "
        "expressions) with texts sampled from the grammar and damaged variants. Non-trivial: the text has two or more "
        "derivations, or one derivation through at least three rules.")
ASSUMPTIONS = ["no empty productions, unit cycles or duplicate rules",
               "regular expressions whose greedy match is their longest match",
               "texts with more than 200 derivations are skipped"]
LIMIT = 200


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 2:
        # a space that may be there, between constituents that can take it themselves
        rules = draw(grammars(upper=True, same_form=True, seps=('~', '~', ' ', '+'), words=["a", "a ", " a", "b", " "] + WORDS))
    else:
        rules = draw(grammars(upper=True, same_form=True))
    return dict(rules=rules, texts=[draw(texts(rules)) for _ in range(draw(st.integers(1, 3)))])


def size(tree):
    return 1 + sum(size(c) for c in tree[1] if isinstance(c[0], int))


def leaves(node):
    return node.form if node.form != "" else "".join(leaves(c) for c in node.children)


def check_wellformed(node, rules):
    """every node instantiates its rule: its children are, one by one, what the rule's right-hand side asks for"""
    if node.form != "":
        expect(len(node.children) == 0, "a leaf has children", leaf=node.form)
        return
    expect(node.category == node.rule.antecedent.predicate, "category of a node differs from its rule", node=node.category, rule=str(node.rule))
    expect(len(node.children) == len(node.rule.consequents), "number of children differs from the rule", rule=str(node.rule))
    for child, consequent in zip(node.children, node.rule.consequents):
        expect(child.category == consequent.predicate, "a child's category differs from its rule", rule=str(node.rule), child=child.category)
        if child.form == "":
            expect(len(child.rule.antecedent.arguments) == len(consequent.arguments), "a child's arity differs from its rule", rule=str(node.rule))
        check_wellformed(child, rules)


def check(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.earley.EarleyParser import EarleyParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    rules = case['rules']
    grammar = SimpleGrammarRulesParser().parse_read_grammar(make_simple_grammar(rules))
    for text in case['texts']:
        reference = Reference(rules, text)
        total = reference.total()
        if total > LIMIT:
            rec.label("skipped: too ambiguous")
            continue
        expected = reference.all_trees() if text else []
        result = EarleyParser().parse(grammar, text)
        expect(isinstance(result.products, list), "products is not a list", products=result.products)
        for node in result.products:
            check_wellformed(node, rules)
            expect(leaves(node).lower() == text.lower(), "the leaves of a tree do not make up the text", text=text, leaves=leaves(node))
        actual = [tree_of(node) for node in result.products]
        missing = [t for t in expected if t not in actual]
        extra = [t for t in actual if t not in expected]
        expect(not missing, "a derivation of the sentence is missing from the parse trees", text=text, missing=missing[:3], found=len(actual), expected=len(expected))
        expect(not extra, "a parse tree is not a derivation of the sentence", text=text, extra=extra[:3], expected=expected[:3])
        expect(len(actual) == len(expected), "a derivation was returned more than once", text=text, found=len(actual), expected=len(expected))
        # the parser as it is used in a pipeline hands over the same trees, in its own order
        through = [tree_of(p.parse_tree) for p in BasicParser(grammar).process(SentenceRequest(text)).products]
        if "  " not in text and text == re.sub(r"\s+", " ", text):
            expect(sorted(through, key=repr) == sorted(actual, key=repr), "the parser in the pipeline gives other trees", text=text,
                   trees=through[:5], expected=actual[:5])
        rec.label("no parse" if total == 0 else "1 parse" if total == 1 else "2-9 parses" if total < 10 else "10+ parses")
        if any(k[0] == 's' and k[1] > 1 for k in reference.index):
            rec.label("s with 2 arguments")
        if total and text != text.lower():
            rec.label("parsed text with capitals")
        rec.interesting(total > 1 or any(size(t) >= 3 for t in expected))


PARTS = [Part("derivations", cases, check, quick=4000, thorough=150000)]
