"""C03: a rule's syntax notation denotes exactly its language."""
import re

from hypothesis import strategies as st

from vlib.case import expect
from vlib.grammar import REGEXES, Reference, args_of, quote, variants
from vlib.runner import Part

RULE = ("Random rules in the `syn` notation (1-6 constituents: quoted words incl. escaped quotes, optional words, regular "
        "expressions, categories; separators space, + and ~; free layout; both quote styles) with every text obtained by making "
        "the rule's choices, plus texts with a space added, removed or doubled, letters recased, words dropped. Non-trivial: the "
        "rule has an optional word, a ~ or an escaped quote, and the texts contain an accepted and a rejected one. 'damaged': rules with a token "
        "removed, doubled, replaced, inserted or swapped; what is no rule any more by a recogniser of the notation must be rejected.")
ASSUMPTIONS = ["at least one constituent is not optional", "no backslash inside quoted words",
               "regular expressions whose greedy match is their longest match"]

WORDS = ["a", "b", "ab", "the", "!", ",", "it's", 'say "x"', "?", "'", "of the", "+", "~", "/", "->", "(", "s", "x()", "ü", "X", "John's", "ss", "ß", "1", "b1"]
# more regular expressions with characters that mean something in the notation
EXPRESSIONS = dict(REGEXES, **{r"\w/": ["a/", "1/"], r"/": ["/"], r"/+": ["/", "//"], r"/\w": ["/a"], r"\(\w+\)": ["(a)", "(ab)"], r"\?": ["?"], r"a\+": ["a+"],
                               r'"\w+"': ['"a"'], r"it's": ["it's"], r"->": ["->"], r"[~+?]": ["~", "+"], r"'": ["'"], r"a, b": ["a, b"], r"\d\d/\d\d/": ["10/20/"]})
CATS = {"cat": ["cat", "a"], "dog": ["dog"], "two": ["a b"]}


@st.composite
def cases(draw):
    size = draw(st.integers(1, 6))
    required = draw(st.integers(0, size - 1))
    items = []
    for i in range(size):
        kind = draw(st.sampled_from(['word', 'word', 'word', 'opt', 'opt', 're', 'cat']))
        if kind == 'opt' and i == required:
            kind = 'word'
        if kind in ('word', 'opt'):
            items.append(('word', draw(st.sampled_from(WORDS)), kind == 'opt'))
        elif kind == 're':
            items.append(('re', draw(st.sampled_from(sorted(EXPRESSIONS)))))
        else:
            items.append(('cat', draw(st.sampled_from(sorted(CATS))), ['E1']))
    seps = [draw(st.sampled_from([' ', ' ', '+', '~'])) for _ in items[1:]]
    rule = dict(ant=('s', ['E1']), items=items, seps=seps)
    layout = draw(st.lists(st.sampled_from(["", " ", " ", "  ", "\n", "\t "]), min_size=12, max_size=12))
    quotes = draw(st.lists(st.sampled_from("'\""), min_size=6, max_size=6))

    # texts by making the choices of the notation
    vs = variants(rule)
    texts = []
    for _ in range(draw(st.integers(1, 4))):
        text = ""
        for tok in draw(st.sampled_from(vs)):
            if tok[0] == 'word':
                text += tok[1]
            elif tok[0] == 're':
                text += draw(st.sampled_from(EXPRESSIONS[tok[1]]))
            else:
                text += draw(st.sampled_from(CATS[tok[1]]))
        texts.append(text)
    for text in list(texts):
        for _ in range(draw(st.integers(0, 3))):
            op = draw(st.sampled_from(['space', 'unspace', 'double', 'upper', 'drop', 'append', 'white', 'letter']))
            i = draw(st.integers(0, len(text)))
            if op == 'space':
                texts.append(text[:i] + " " + text[i:])
            elif op == 'unspace':
                texts.append(text[:i] + text[i:].replace(" ", "", 1))
            elif op == 'double':
                texts.append(text.replace(" ", "  "))
            elif op == 'upper':
                texts.append(text.upper())
            elif op == 'letter':
                # other letters, although their capitals are the same
                texts.append(text.replace("i", "\u0131"))
            elif op == 'drop':
                texts.append(text[:i] + text[i + 1:])
            elif op == 'append':
                texts.append(text + draw(st.sampled_from(["a", " ", "!", "b", " the", "1"])))
            elif op == 'white':
                texts.append(text.replace(" ", draw(st.sampled_from(["\t", "\n", " \r\n ", "\u00a0"]))))
    return dict(rule=rule, layout=layout, quotes=quotes, texts=texts)


def render(rule, layout, quotes):
    layout = list(layout)

    def gap(least=""):
        return layout.pop(0) if layout else least

    text = rule['ant'][0] + "(" + ",".join(rule['ant'][1]) + ")" + gap() + "->" + gap()
    for i, item in enumerate(rule['items']):
        if i:
            sep = rule['seps'][i - 1]
            text += (gap(" ") or " ") if sep == ' ' else gap() + sep + gap()
        if item[0] == 'cat':
            text += item[1] + "(" + ", ".join(item[2]) + ")"
        elif item[0] == 'word':
            text += quote(item[1], quotes[i]) + ("?" if item[2] else "")
        else:
            text += "/" + item[1].replace("/", "\\/") + "/"
    return text


def leaves(node):
    return node.form if node.form != "" else "".join(leaves(c) for c in node.children)


def check(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    rule = case['rule']
    rules = [rule] + [dict(ant=(c, ['E1']), items=[('word', w, False)], seps=[]) for c in CATS for w in CATS[c]]
    grammar = [{'syn': render(rule, case['layout'], case['quotes']), 'sem': lambda *a: 0}] + \
              [{'syn': f"{c}(E1) -> " + quote(w), 'sem': lambda *a: 1} for c in CATS for w in CATS[c]]
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(grammar))
    verdicts = set()
    for text in case['texts']:
        flat = re.sub(r"\s+", " ", text)
        accepted = flat != "" and Reference(rules, flat).total() > 0
        result = parser.process(SentenceRequest(text))
        found = len(result.products) > 0
        expect(found == accepted, "the rule accepts a text outside its language" if found else "the rule rejects a text of its language",
               syn=grammar[0]['syn'], text=text)
        for product in result.products:
            tree = product.parse_tree
            expect(leaves(tree).lower() == flat.lower(), "the leaves of the tree do not make up the text", syn=grammar[0]['syn'], text=text, leaves=leaves(tree))
        verdicts.add(accepted)
        rec.label("accepted" if accepted else "rejected")
    special = any(it[0] == 'word' and (it[2] or "'" in it[1] or '"' in it[1]) for it in rule['items']) or '~' in rule['seps']
    leading = rule['items'][0][0] == 'word' and rule['items'][0][2]
    if leading:
        rec.label("leading optional word")
    if '~' in rule['seps']:
        rec.label("optional space")
    if any(it[0] == 'word' and it[2] for it in rule['items'][1:]):
        rec.label("later optional word")
    rec.interesting(special and len(verdicts) == 2)


# ---------------------------------------------------------------- texts that are no rules

TOKENS = ["?", ",", "->", "(", ")", "'a'", '"b"', "/c+/", "E1", "E2", "cat", "dog", "5", "+", "~", "S"]


@st.composite
def damaged(draw):
    tokens = ["s", "("] + draw(st.sampled_from([["E1"], ["E1"], [], ["E1", ",", "E2"]])) + [")", "->"]
    for i in range(draw(st.integers(1, 4))):
        if i:
            tokens += draw(st.sampled_from([[], [], ["+"], ["~"]]))
        tokens += draw(st.sampled_from([["'a'"], ['"b"'], ["/c+/"], ["'a'", "?"], ["cat", "(", "E1", ")"], ["cat", "(", "E2", ")"], ["cat", "(", ")"],
                                        ["dog", "(", "E1", ",", "E2", ")"]]))
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        i = draw(st.integers(0, len(tokens) - 1))
        op = draw(st.sampled_from(['replace', 'remove', 'double', 'insert', 'swap', 'cut', 'append']))
        if op == 'replace':
            tokens[i] = draw(st.sampled_from(TOKENS))
        elif op == 'remove':
            del tokens[i]
        elif op == 'double':
            tokens.insert(i, tokens[i])
        elif op == 'insert':
            tokens.insert(i, draw(st.sampled_from(TOKENS)))
        elif op == 'swap':
            tokens[i:i + 2] = tokens[i:i + 2][::-1]
        elif op == 'cut':
            tokens = tokens[:i + 1]
        else:
            tokens.append(draw(st.sampled_from(TOKENS)))
        if not tokens:
            break
    return dict(tokens=tokens, write=draw(st.booleans()), others=draw(st.integers(0, 2)), place=draw(st.integers(0, 2)),
                text=draw(st.lists(st.sampled_from(["a", "b", "c", "cc", "dog", "cat", " ", ""]), max_size=5)))


class NoRule(Exception):
    pass


class Unclear(Exception):
    pass


def read(tokens, write):
    """the rule these tokens stand for"""
    tokens = list(tokens) + [None, None]

    def is_name(t):
        return t is not None and re.fullmatch(r"\w+", t) is not None

    def atom():
        name = tokens.pop(0)
        if not is_name(name) or tokens.pop(0) != '(':
            raise NoRule
        arguments = []
        while tokens[0] is not None and re.fullmatch(r"[A-Z]\w*", tokens[0]):
            arguments.append(tokens.pop(0))
            if tokens[0] != ',':
                break
            tokens.pop(0)
            if tokens[0] == ')':
                raise Unclear
        if tokens.pop(0) != ')':
            raise NoRule
        return name, arguments
    rule = dict(ant=atom(), items=[], seps=[])
    if tokens.pop(0) != '->':
        raise NoRule
    if tokens[0] is None:
        raise Unclear
    while True:
        t = tokens[0]
        if t is None:
            raise NoRule
        if t[0] in "'\"":
            tokens.pop(0)
            optional = tokens[0] == '?'
            if optional:
                tokens.pop(0)
            rule['items'].append(('word', t[1:-1], optional))
        elif t[0] == '/':
            tokens.pop(0)
            rule['items'].append(('re', t[1:-1]))
        else:
            rule['items'].append(('cat',) + atom())
            if write and tokens[0] == '?':
                tokens.pop(0)
        if tokens[0] is None:
            return rule
        if tokens[0] in ('+', '~'):
            rule['seps'].append(tokens.pop(0))
            if tokens[0] is None:
                raise Unclear
        else:
            rule['seps'].append(' ')


def check_damaged(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

    syn = " ".join(case['tokens'])
    try:
        rule = read(case['tokens'], case['write'])
    except NoRule:
        rule = None
    except Unclear:
        rec.label("unclear")
        return
    if rule is None and not case['tokens']:
        rec.label("empty")
    content = dict(exec=lambda *a: 0) if case['write'] else dict(sem=lambda *a: 0)
    grammar = [dict(syn=f"other(E1) -> 'o{i}'", **content) for i in range(case['others'])]
    grammar.insert(case['place'] % (len(grammar) + 1), dict(syn=syn, **content))
    parser = SimpleGrammarRulesParser()
    try:
        rules = (parser.parse_write_grammar if case['write'] else parser.parse_read_grammar)(grammar)
    except RecursionError:
        raise
    except Exception as e:
        expect(rule is None, "a rule is rejected", syn=syn, error=repr(e))
        expect(syn in str(e), "the error does not say which rule is wrong", syn=syn, error=repr(e))
        rec.label("rejected")
        rec.interesting(len(case['tokens']) > 5)
        return
    expect(rule is not None, "a text that is no rule is accepted", syn=syn)
    rec.label("still a rule")
    if case['write'] or rule['ant'][0] != 's' or all(it[0] == 'word' and it[2] for it in rule['items']) or not any(len(v) for v in variants(rule)):
        return
    # accepted: with the language of the rule as it is written
    known = [rule] + [dict(ant=(c, ['E1']), items=[('word', w, False)], seps=[]) for c in CATS for w in CATS[c]]
    if len(rule['ant'][1]) != 1 or any(it[0] == 'cat' and (it[1] == 's' or it[1] not in CATS) for it in rule['items']):
        return
    more = [dict(syn=f"{c}(E1) -> " + quote(w), sem=lambda *a: 1) for c in CATS for w in CATS[c]]
    reader = BasicParser(parser.parse_read_grammar(grammar + more))
    text = "".join(case['text']).strip()
    for text in {text} | {"".join(t[1] if t[0] == 'word' else "c" if t[0] == 're' else CATS[t[1]][0] for t in v) for v in variants(rule)}:
        flat = re.sub(r"\s+", " ", text)
        if flat.strip() == "":
            continue
        accepted = Reference(known, flat).total() > 0
        expect((len(reader.process(SentenceRequest(flat)).products) > 0) == accepted, "the rule has another language", syn=syn, text=flat, accepted=accepted)


PARTS = [Part("language", cases, check, quick=6000, thorough=150000), Part("damaged", damaged, check_damaged, quick=4000, thorough=60000)]
