"""
Read grammars as data, their rendering in the `syn` notation, an independent reference parser, and generators.

rule  = dict(ant=(name, [vars]), items=[item, ...], seps=[sep, ...])       len(seps) == len(items) - 1
item  = ('cat', name, [vars]) | ('word', text, optional) | ('re', pattern)
sep   = ' ' | '+' | '~'
"""
import re

from hypothesis import strategies as st

REGEXES = {
    # pattern: example matches. For each of these the greedy match is the longest match.
    r"\w+": ["a", "ab", "x1", "bob"],
    r"\d+": ["1", "23", "405"],
    r"[a-c]+": ["a", "cab", "bb"],
    r"[ab]": ["a", "b"],
    r"\w+ \w+": ["a b", "ab ba", "bob ab"],
    r"\w+-\w+": ["a-b", "ab-a"],
    r"(?:ab)+": ["ab", "abab"],
    r"a{2}": ["aa"],
    r"[^ ]+": ["a", "b'", "b."],
    r"ab?": ["a", "ab"],
    r"'\w+'": ["'a'", "'ab'"],
    r"\w+/\w+": ["a/b"],
    r"[A-Z]\w*": ["A", "Bob"],
    r".+": ["a b", "ab"],
    r"a(bb)*": ["a", "abb"],
    # these look at what is before them, which is not part of the piece
    r"^b": ["b"],
    r"(?<!a)b+": ["b", "bb"],
    r"\bb\w*": ["b", "ba"],
}


def quote(text, q="'"):
    return q + text.replace(q, "\\" + q) + q


def render_item(item, q="'"):
    if item[0] == 'cat':
        return item[1] + "(" + ", ".join(item[2]) + ")"
    if item[0] == 'word':
        return quote(item[1], q) + ("?" if item[2] else "")
    return "/" + item[1].replace("/", "\\/") + "/"


def render_rule(rule, q="'"):
    text = rule['ant'][0] + "(" + ", ".join(rule['ant'][1]) + ") -> "
    for i, item in enumerate(rule['items']):
        if i:
            text += {' ': ' ', '+': '+', '~': '~'}[rule['seps'][i - 1]]
        text += render_item(item, q)
    return text


def variants(rule):
    """
    The alternative right-hand sides a rule stands for, as token lists: ('cat', name, arity) | ('word', text) | ('re', pattern).
    Independent reading of the notation: choose the optional words that are present; every two neighbours that are present
    are joined by the separator that belongs to the later-added one.
    """
    items, seps = rule['items'], rule['seps']
    results = []
    optional = [i for i, it in enumerate(items) if it[0] == 'word' and it[2]]
    for mask in range(2 ** len(optional)):
        left_out = {optional[k] for k in range(len(optional)) if not mask >> k & 1}
        present = [i for i in range(len(items)) if i not in left_out]
        if not present:
            continue
        first_required = next((i for i in range(len(items)) if i not in optional), None)
        alternatives = [[token(items[present[0]])]]
        for p, q in zip(present, present[1:]):
            # an optional word is attached by the separator on its left, except at the start of the rule,
            # where there is nothing on its left: there it is attached by the separator on its right
            if first_required is None or q <= first_required:
                sep = seps[p]
            else:
                sep = seps[q - 1]
            joins = {' ': [[('word', ' ')]], '+': [[]], '~': [[('word', ' ')], []]}[sep]
            alternatives = [a + j + [token(items[q])] for a in alternatives for j in joins]
        for a in alternatives:
            if a not in results:
                results.append(a)
    return results


def token(item):
    if item[0] == 'cat':
        return ('cat', item[1], len(item[2]))
    return (item[0], item[1])


def index_rules(rules):
    """(name, arity) -> [(rule number, tokens)]"""
    index = {}
    for number, rule in enumerate(rules):
        key = (rule['ant'][0], len(rule['ant'][1]))
        for v in variants(rule):
            index.setdefault(key, []).append((number, v))
    return index


def token_ends(tok, text, i):
    if tok[0] == 'word':
        word = tok[1]
        j = i + len(word)
        return [j] if text[i:j].lower() == word.lower() and j <= len(text) else []
    pattern = re.compile(tok[1])
    return [j for j in range(i + 1, len(text) + 1) if pattern.fullmatch(text[i:j])]


class Reference:
    """All derivations of a text, by recursion over spans."""

    def __init__(self, rules, text):
        self.index = index_rules(rules)
        self.text = text
        self.counts = {}
        self.seq_counts = {}

    def count(self, key, i, j):
        k = (key, i, j)
        if k not in self.counts:
            self.counts[k] = sum(self.count_seq(tuple(toks), i, j) for _, toks in self.index.get(key, []))
        return self.counts[k]

    def count_seq(self, toks, i, j):
        if not toks:
            return 1 if i == j else 0
        if j - i < len(toks):
            return 0
        k = (toks, i, j)
        if k not in self.seq_counts:
            tok, rest = toks[0], toks[1:]
            total = 0
            if tok[0] == 'cat':
                if not rest:
                    total = self.count(tok[1:], i, j)
                else:
                    for m in range(i + 1, j):
                        r = self.count_seq(rest, m, j)
                        if r:
                            total += r * self.count(tok[1:], i, m)
            else:
                for m in token_ends(tok, self.text, i):
                    if m <= j:
                        total += self.count_seq(rest, m, j)
            self.seq_counts[k] = total
        return self.seq_counts[k]

    def roots(self):
        return [key for key in self.index if key[0] == 's']

    def total(self):
        return sum(self.count(key, 0, len(self.text)) for key in self.roots())

    def trees(self, key, i, j):
        """(rule number, [child, ...]); leaves are (kind, text)"""
        for number, toks in self.index.get(key, []):
            for children in self.seqs(toks, i, j):
                yield (number, tuple(children))

    def seqs(self, toks, i, j):
        if not toks:
            if i == j:
                yield []
            return
        if not self.count_seq(tuple(toks), i, j):
            return
        tok, rest = toks[0], toks[1:]
        if tok[0] == 'cat':
            ends = [j] if not rest else range(i + 1, j)
            for m in ends:
                if self.count_seq(tuple(rest), m, j):
                    for child in self.trees(tok[1:], i, m):
                        for others in self.seqs(rest, m, j):
                            yield [child] + others
        else:
            for m in token_ends(tok, self.text, i):
                if m <= j:
                    leaf = (tok[0], tok[1] if tok[0] == 'word' else self.text[i:m])
                    for others in self.seqs(rest, m, j):
                        yield [leaf] + others

    def all_trees(self):
        return [t for key in self.roots() for t in self.trees(key, 0, len(self.text))]


def furthest(rules, text):
    """The furthest position that any left-to-right, top-down analysis of the text can reach with a recognised token."""
    index = index_rules(rules)
    ends = {}                       # (key, start) -> set of ends
    agenda = {(key, 0) for key in index if key[0] == 's'}
    best = 0
    changed = True
    while changed:
        changed = False
        for call in list(agenda):
            key, start = call
            found = ends.setdefault(call, set())
            for _, toks in index.get(key, []):
                positions = {start}
                for tok in toks:
                    nxt = set()
                    for p in positions:
                        if tok[0] == 'cat':
                            sub = (tok[1:], p)
                            if sub not in agenda:
                                agenda.add(sub)
                                changed = True
                            nxt |= ends.get(sub, set())
                        else:
                            nxt |= set(token_ends(tok, text, p))
                    if tok[0] != 'cat' and nxt:
                        best = max(best, max(nxt))
                    positions = nxt
                    if not positions:
                        break
                new = positions - found
                if new:
                    found |= new
                    changed = True
    return best


def make_simple_grammar(rules, q="'", sem=True, **extra):
    """the grammar in the notation of the library; rule i has semantics that returns i"""
    grammar = []
    for i, rule in enumerate(rules):
        g = {'syn': render_rule(rule, q)}
        if sem:
            g['sem'] = (lambda n: lambda *args: n)(i)
        if rule.get('boost'):
            g['boost'] = rule['boost']
        grammar.append(g)
    return grammar


def tree_of(node):
    """image of a parse tree of the library in the form used by Reference"""
    from richard.core.constants import POS_TYPE_REG_EXP
    if node.form != "":
        kind = 're' if node.rule.antecedent.position_type == POS_TYPE_REG_EXP else 'word'
        return (kind, node.form)
    return (node.rule.sem(), tuple(tree_of(c) for c in node.children))


# ---------------------------------------------------------------- generators

WORDS = ["a", "b", "ab", "ba", "the", "s", "np", "it's", "a.", "x", "a b", "?", "(", "ü", 'q"', "->", "+", "~", "/", "vp()", "ss", "ß"]
VARS = ["E1", "E2", "E3", "A", "B", "X"]
NAMES = ["np", "vp", "n", "v", "x", "delta", "gamma"]


@st.composite
def args_of(draw, arity, distinct=False):
    return draw(st.lists(st.sampled_from(VARS), min_size=arity, max_size=arity, unique=distinct))


@st.composite
def grammars(draw, optionals=False, boosts=False, seps=(' ', '+', '+'), words=None, max_rules=3, upper=False, same_form=False):
    words = words or WORDS
    s_arities = draw(st.sampled_from([[0], [1], [1], [2], [0, 1], [1, 2], [0, 1, 2]]))
    keys = [('s', a) for a in s_arities]
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)):
        for a in draw(st.sampled_from([[1], [1], [1], [2], [1, 2], [0]])):
            keys.append((name, a))

    word = st.sampled_from(words[:4]) | st.sampled_from(words)
    if upper:
        word = word | st.sampled_from(["John", "A", "USA"])
    regex = st.sampled_from(sorted(REGEXES))
    rules, seen = [], {}

    def add(key, items, joins):
        rule = dict(ant=(key[0], draw(args_of(key[1], True))), items=items, seps=joins)
        if boosts:
            b = draw(st.sampled_from([0, 0, 0, 1, 2, -1]))
            if b:
                rule['boost'] = b
        if all(it[0] == 'word' and it[2] for it in items):
            # can derive the empty string: outside the domain
            return False
        vs = [(key, tuple(v)) for v in variants(rule)]
        if not vs:
            return False
        # rules may have the same form when their variables differ
        names = (tuple(rule['ant'][1]), tuple(tuple(it[2]) if it[0] == 'cat' else () for it in items))
        if any(v in seen and (not same_form or optionals or names in seen[v]) for v in vs):
            return False
        # no unit production to the same or an earlier category
        for _, v in vs:
            if len(v) == 1 and v[0][0] == 'cat' and keys.index(v[0][1:]) <= keys.index(key):
                return False
        for v in vs:
            seen.setdefault(v, []).append(names)
        rules.append(rule)
        return True

    for k, key in enumerate(keys):
        made = 0
        for n in range(draw(st.integers(1, max_rules))):
            items = []
            size = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
            for _ in range(size):
                kind = draw(st.sampled_from(['cat', 'cat', 'cat', 'word', 'word', 're']))
                # the first rule of a category only refers to later ones: every category is productive
                targets = keys if made else keys[k + 1:]
                if kind == 'cat' and size == 1:
                    targets = keys[k + 1:]
                if kind == 'cat' and not targets:
                    kind = 'word'
                if kind == 'cat':
                    target = draw(st.sampled_from(targets))
                    items.append(('cat', target[0], draw(args_of(target[1]))))
                elif kind == 'word':
                    items.append(('word', draw(word), optionals and draw(st.integers(0, 2)) == 0))
                else:
                    items.append(('re', draw(regex)))
            joins = [draw(st.sampled_from(seps)) for _ in items[1:]]
            if add(key, items, joins):
                made += 1
        if not made:
            for w in words:
                if add(key, [('word', w, False)], []):
                    break
    return rules


@st.composite
def sentences(draw, rules, key=None, depth=5, index=None):
    """a sentence derived from the grammar (every choice drawn)"""
    index = index or index_rules(rules)
    key = key or draw(st.sampled_from([k for k in index if k[0] == 's']))

    budget = [26]

    def expand(key, depth):
        options = index[key]
        if depth <= 0 or budget[0] <= 0:
            number, toks = options[0]
        else:
            number, toks = options[draw(st.integers(0, len(options) - 1))]
        text = ""
        for tok in toks:
            if tok[0] == 'cat':
                text += expand(tok[1:], depth - 1)
            elif tok[0] == 'word':
                text += tok[1]
                budget[0] -= len(tok[1])
            else:
                sample = draw(st.sampled_from(REGEXES[tok[1]]))
                text += sample
                budget[0] -= len(sample)
        return text

    return expand(key, depth)


@st.composite
def texts(draw, rules, max_len=24, noise=True):
    """mostly sentences of the grammar, sometimes damaged, sometimes recased, sometimes unrelated"""
    how = draw(st.sampled_from(['ok', 'ok', 'ok', 'case', 'case', 'edit', 'edit', 'cut', 'free'] if noise else ['ok', 'ok', 'case']))
    if how == 'free':
        return draw(st.text(alphabet="ab s.'üÅ1-", max_size=10))
    text = draw(sentences(rules))
    if how == 'case':
        mode = draw(st.sampled_from(['upper', 'title', 'swap', 'fold']))
        text = text.upper() if mode == 'upper' else text.title() if mode == 'title' else text.swapcase() if mode == 'swap' else \
            text.replace('ß', 'ss') if 'ß' in text else text.replace('ss', 'ß').replace('s', 'ß')
    elif how == 'edit':
        for _ in range(draw(st.integers(1, 2))):
            if not text:
                break
            i = draw(st.integers(0, len(text) - 1))
            op = draw(st.sampled_from(['del', 'ins', 'sub', 'dup']))
            ch = draw(st.sampled_from(list("ab s.x ")))
            if op == 'del':
                text = text[:i] + text[i + 1:]
            elif op == 'ins':
                text = text[:i] + ch + text[i:]
            elif op == 'sub':
                text = text[:i] + ch + text[i + 1:]
            else:
                text = text + text[i:]
    elif how == 'cut':
        text = text[:draw(st.integers(0, len(text)))]
    return text[:max_len]
