"""C12: rule files mean exactly what is written, or are rejected."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import from_repo, freeze
from vlib.runner import Part

RULE = ("Random lists of facts and rules (all term types, nested atom lists, disjunctions, no-argument atoms) written in the "
        "notation with random spacing, line breaks and comments, parsed, and compared with the list, types included. "
        "'truncated': the text is cut at a random place and must give exactly the complete rules before the cut, or be rejected "
        "when the cut is inside a rule. 'damaged': a token is removed, doubled or replaced, or a character that is not in the "
        "notation is inserted: must be rejected. 'import': files imported one after the other into an inference module. "
        "Non-trivial: at least two rules, at least one with a body or a nested list.")
ASSUMPTIONS = ["strings without backslashes", "nested atom lists that are followed by another argument, or have several atoms, are in parentheses",
               "predicates start with a lower case letter, variables with a capital from A-Z", "nesting up to depth 3 (the parser takes exponential time in the depth)"]

IDS = ["p", "q", "parent", "five_horses", "x1", "aB", "été", "is_a", "_x"]
VARIABLES = ["X", "Y", "E1", "Abc", "A_1", "B"]
PLAIN = ["john", "a b", "", "0", "1.5", "X", "it's", 'say "hi"', "'", '"', "''", "a.b", "p(X) :- q(X).", "# no comment", "#", "a,b;c", "(", ")", "É", "日本",
         "two\nlines", "tab\t", " ", "-5", "%", "?", "'\"'", "\\n".replace("\\", "/")]
STRAY = list("$&*!@[]{}<>=|^%~+-/`§€") + ["\\", ":", "?"]


@st.composite
def terms(draw, depth):
    kind = draw(st.sampled_from(['var', 'var', 'str', 'str', 'int', 'float'] + (['atoms'] if depth else [])))
    if kind == 'var':
        return '?' + draw(st.sampled_from(VARIABLES))
    if kind == 'str':
        return draw(st.sampled_from(PLAIN) | st.text(alphabet="ab'\"# .,\n", max_size=5))
    if kind == 'int':
        return draw(st.sampled_from([0, 1, 2, 10, 42, 1234567890123, 2 ** 53 + 1, 10 ** 17 + 1, 10 ** 30 + 7, 7]))
    if kind == 'float':
        return draw(st.sampled_from([0.0, 0.5, 1.0, 3.14, 100.25, 10.0, 0.1, 1234567890.125, 0.30000000000000004, 9007199254740992.0]))
    return draw(bodies(depth - 1))


@st.composite
def simple_atoms(draw, depth):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
    return tuple([draw(st.sampled_from(IDS))] + [draw(terms(depth)) for _ in range(n)])


@st.composite
def bodies(draw, depth):
    atoms = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        if depth and draw(st.integers(0, 3)) == 0:
            atoms.append(('$disjunction', [draw(bodies(depth - 1)) for _ in range(draw(st.integers(2, 3)))]))
        else:
            atoms.append(draw(simple_atoms(depth)))
    return atoms


def quoted(draw, value):
    q = draw(st.sampled_from("'\""))
    return q + value.replace(q, "\\" + q) + q


def write_term(draw, term, last):
    if isinstance(term, list):
        # one atom, or several in parentheses
        grouped = draw(st.booleans()) or len(term) > 1 or not last
        inner = write_atoms(draw, term)
        return [('group', '(')] + inner + [('group', ')')] if grouped else inner
    if isinstance(term, str):
        if len(term) > 1 and term[0] == '?':
            return [('var', term[1:])]
        return [('string', quoted(draw, term))]
    return [('number', repr(term))]


def write_simple(draw, atom):
    out = [('id', atom[0]), ('open', '(')]
    for i, t in enumerate(atom[1:]):
        if i:
            out.append(('comma', ','))
        out.extend(write_term(draw, t, i == len(atom) - 2))
    return out + [('close', ')')]


def write_atoms(draw, atoms):
    out = []
    for i, atom in enumerate(atoms):
        if i:
            out.append(('and', ','))
        if atom[0] == '$disjunction':
            out.append(('group', '('))
            for j, alternative in enumerate(atom[1]):
                if j:
                    out.append(('or', ';'))
                inner = write_atoms(draw, alternative)
                if len(alternative) > 1 and draw(st.integers(0, 2)) == 0:
                    inner = [('group', '(')] + inner + [('group', ')')]
                out.extend(inner)
            out.append(('group', ')'))
        else:
            out.extend(write_simple(draw, atom))
    return out


def write_rule(draw, rule):
    head, body = rule
    out = write_simple(draw, head)
    if body:
        out.append(('if', ':-'))
        inner = write_atoms(draw, body)
        if draw(st.integers(0, 4)) == 0 and len(body) > 1:
            inner = [('group', '(')] + inner + [('group', ')')]
        out.extend(inner)
    return out + [('end', '.')]


GAPS = ["", "", "", " ", " ", "\n", "\n\n", "\t", "  ", " # comment\n", "#\n", "\n# it's p(X) :- q(X).\n", "# \"quoted\n", "\n#1\n#2\n", "\r\n"]


@st.composite
def rule_lists(draw, size):
    rules = []
    for _ in range(draw(st.integers(*size))):
        depth = draw(st.sampled_from([0, 1, 1, 2]))
        rules.append((draw(simple_atoms(min(depth, 1))), draw(bodies(depth)) if draw(st.integers(0, 2)) else []))
    return rules


@st.composite
def files(draw, size=(0, 5)):
    """rules, and the pieces of text: (gap, kind, token) ending with a last gap; comments may end the text without line break"""
    rules = draw(rule_lists(size))
    pieces = []
    for n, rule in enumerate(rules):
        for kind, text in write_rule(draw, rule):
            gap = draw(st.sampled_from(GAPS))
            pieces.append((gap, kind, text, n))
    tail = draw(st.sampled_from(["", "", "\n", "\n# the end", "#", "\n# p('a').", "  ", "\n# p('a'). \n#"]))
    return dict(rules=rules, pieces=pieces, tail=tail)


def text_of(case):
    out, previous = "", None
    for gap, kind, text, n in case['pieces']:
        if gap == "" and previous is not None and previous[-1:].isalnum() and text[:1].isalnum():
            gap = " "
        if previous in ('.', ':-') and gap == "" and text[:1].isdigit():
            gap = " "
        out += gap + text
        previous = text
    return out + case['tail']


def image(rules):
    return [(from_repo(r.head), from_repo(r.body)) for r in rules]


def parse(text):
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    result = SimpleInferenceRuleParser().parse(text)
    expect(isinstance(result, tuple) and len(result) == 2, "parse did not return rules and a position", result=result)
    rules, pos = result
    if rules is None:
        expect(isinstance(pos, int) and not isinstance(pos, bool) and 0 <= pos <= len(text), "rejected without a position", text=text, position=pos)
        return None
    expect(pos is None, "both rules and an error position", text=text, position=pos)
    return image(rules)


def same(a, b):
    return a is not None and freeze(a) == freeze(b)


def rich(rules):
    return len(rules) >= 2 and any(b or any(isinstance(t, list) for t in h) for h, b in rules)


def labels(rec, case):
    text = repr(case['rules'])
    if '$disjunction' in text:
        rec.label("disjunction")
    if any(isinstance(t, list) for h, b in case['rules'] for a in [h] + b for t in a[1:]):
        rec.label("nested atom list")
    if any('#' in g for g, _, _, _ in case['pieces']) or '#' in case['tail']:
        rec.label("comments")
    kinds = {k for _, k, _, _ in case['pieces']}
    rec.label(*sorted(kinds & {'string', 'number', 'var'}))


def check_round_trip(case, rec):
    text = text_of(case)
    actual = parse(text)
    expect(same(actual, case['rules']), "a rule file is not read as what was written", text=text, rules=actual, expected=case['rules'])
    labels(rec, case)
    rec.interesting(rich(case['rules']))


# ---------------------------------------------------------------- truncated

@st.composite
def truncated(draw):
    case = draw(files((1, 4)))
    case['cut'] = draw(st.floats(0, 1))
    case['how'] = draw(st.sampled_from(['any', 'token', 'token']))
    return case


def check_truncated(case, rec):
    text = text_of(case)
    # the ends of the tokens in the text
    ends, at = [], 0
    for gap, kind, token, n in case['pieces']:
        at = text.index(token, skip_gap(text, at)) + len(token)
        ends.append((at, kind))
    if case['how'] == 'token':
        cut = ends[int(case['cut'] * (len(ends) - 1))][0]
    else:
        cut = int(case['cut'] * len(text))
    complete = sum(1 for e, kind in ends if kind == 'end' and e <= cut)
    inside = [e for e, kind in ends if e <= cut]
    # tokens after the last complete rule, or a token that was cut
    last_end = max([e for e, kind in ends if kind == 'end' and e <= cut], default=0)
    started = len([e for e in inside if e > last_end]) > 0
    if not started:
        # is there a part of a token after the gap?
        start = skip_gap(text, last_end)
        started = start < cut
    actual = parse(text[:cut])
    if started:
        expect(actual is None, "a rule file that ends in the middle of a rule was accepted", text=text[:cut], rules=actual)
        rec.label("cut inside a rule")
    else:
        expect(same(actual, case['rules'][:complete]), "a rule file is not read as what was written", text=text[:cut], rules=actual, expected=case['rules'][:complete])
        rec.label("cut between rules")
    rec.interesting(started and complete >= 1 or not started and complete >= 2)


def skip_gap(text, at):
    """the position of the first character that is not white space or comment"""
    while at < len(text):
        if text[at] == '#':
            end = text.find("\n", at)
            at = len(text) if end < 0 else end + 1
        elif text[at].isspace():
            at += 1
        else:
            break
    return at


# ---------------------------------------------------------------- damaged

@st.composite
def damaged(draw):
    case = draw(files((1, 4)))
    case['where'] = draw(st.floats(0, 1))
    case['how'] = draw(st.sampled_from(['remove', 'remove', 'stray', 'stray', 'double', 'quote', 'replace', 'replace']))
    case['stray'] = draw(st.sampled_from(STRAY))
    case['other'] = draw(st.sampled_from([",", ";", ".", ":-", "X", "7", "q", "''", "]"]))
    return case


def check_damaged(case, rec):
    pieces = list(case['pieces'])
    i = int(case['where'] * (len(pieces) - 1))
    how = case['how']
    if how == 'replace':
        # a parenthesis, so that the text is not balanced any more
        places = [k for k, piece in enumerate(pieces) if piece[2] in ("(", ")")]
        i = places[int(case['where'] * (len(places) - 1))]
    gap, kind, token, n = pieces[i]
    following = pieces[i + 1][1] if i + 1 < len(pieces) else None
    before = pieces[i - 1][1] if i else None
    if how == 'stray':
        if case['stray'] in ("?", ":") and case['stray'] + token == ":-":
            return
        pieces.insert(i, (gap, 'stray', case['stray'], n))
        pieces[i + 1] = ("", kind, token, n)
    elif how == 'quote':
        # a lone quote in a text that has no other quotes
        if any(k == 'string' for _, k, _, _ in pieces) or any("'" in g for g, _, _, _ in pieces) or "'" in case['tail']:
            return
        pieces[i] = (gap, 'stray', "'", n)
    elif how == 'replace':
        pieces[i] = (gap or " ", kind, case['other'], n)
        pieces[i + 1:i + 2] = [(" " + g, k, t, m) for g, k, t, m in pieces[i + 1:i + 2]]
    elif how == 'remove':
        if kind in ('var', 'string', 'number') and (following == 'close' or before == 'open' and following == 'close'):
            return                      # may leave something that can be read
        if kind == 'id' and following == 'open' and before not in (None, 'end'):
            return                      # may leave a group
        pieces[i + 1:i + 2] = [(" " + g, k, t, m) for g, k, t, m in pieces[i + 1:i + 2]]
        del pieces[i]
        if not pieces:
            return
    else:
        pieces.insert(i, (gap, kind, token, n))
        pieces[i + 1] = (" ", kind, token, n)
    damaged = dict(pieces=pieces, tail=case['tail'])
    text = text_of(damaged)
    actual = parse(text)
    expect(actual is None, "a text that is not in the notation was accepted", text=text, damage=(how, kind, token), rules=actual)
    rec.label(how + " " + kind)
    rec.interesting(len(case['rules']) > 1)


# ---------------------------------------------------------------- import

@st.composite
def imports(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        f = draw(files((0, 3)))
        f['broken'] = draw(st.sampled_from([False, False, False, True])) and bool(f['pieces'])
        out.append(f)
    return out


def check_import(case, rec):
    from richard.module.InferenceModule import InferenceModule
    directory = tempfile.mkdtemp(prefix="verif-c12-")
    try:
        module = InferenceModule()
        expected = {}
        for n, f in enumerate(case):
            text = text_of(f)
            if f['broken']:
                text = text_of(dict(pieces=f['pieces'][:-1], tail=""))
            path = os.path.join(directory, f"rules{n}.pl")
            with open(path, "w", encoding="utf-8", newline="") as file:
                file.write(text)
            try:
                module.import_rules(path)
                expect(not f['broken'], "a broken rule file was imported", text=text)
                for head, body in f['rules']:
                    expected.setdefault(head[0], []).append((head, body))
            except Exception as e:
                if not f['broken'] or type(e) is not Exception:
                    raise
            actual = {k: image(v) for k, v in module.rules.items() if v}
            expect(freeze(actual) == freeze(expected), "importing a file does not add exactly its rules", text=text, rules=actual, expected=expected)
            expect(set(module.get_relations()) == set(expected) | {"learn_rule"}, "wrong predicates after importing", predicates=sorted(module.get_relations()))
        rec.label(f"{len(case)} files")
        if any(f['broken'] for f in case):
            rec.label("with a broken file")
        rec.interesting(len(case) > 1 and sum(len(v) for v in expected.values()) > 1)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


PARTS = [Part("round trip", files, check_round_trip, quick=3000, thorough=100000),
         Part("truncated", truncated, check_truncated, quick=2500, thorough=80000),
         Part("damaged", damaged, check_damaged, quick=2500, thorough=80000),
         Part("import", imports, check_import, quick=500, thorough=10000)]
