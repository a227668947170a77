"""C06: applying a semantic template is exact substitution."""
import copy

from hypothesis import strategies as st

from vlib.case import expect
from vlib.lang import from_repo, to_repo
from vlib.runner import Part

RULE = ("Random template bodies (lists and atoms nested up to depth 4, parameters at any position, repeated or absent) with 1-3 "
        "parameters and random atom lists as values (empty, sharing names with the body, holding markers of enclosing templates "
        "or of the template's other parameters); each template is applied several times. Non-trivial: some parameter occurs at "
        "depth two or more, or twice, or a value holds a marker.")

PARAMS = ['__$Range$__', '__$Body$__', '__$Third$__', '__$Outer$__']


def bodies(params):
    leaf = st.one_of(st.sampled_from(['?E1', '?E2', '!E1', 'x', 1, 0, None, 2.5]), st.sampled_from(['E1', 'Body', '']))
    marker = st.sampled_from(params)

    def atom(children):
        return st.tuples(st.sampled_from(['p', 'all', 'not']), children, children) | st.tuples(st.sampled_from(['q', 'scoped']), children)

    terms = st.recursive(leaf, lambda sub: st.one_of(
        atom(sub), st.lists(st.one_of(marker, atom(sub)), max_size=4)), max_leaves=12)
    direct = st.tuples(st.just('direct'), marker, st.just('?E1'))
    # nothing but a parameter
    alone = st.tuples(marker) | st.tuples(st.just('p'), st.tuples(marker)) | st.tuples(st.just('p'), st.tuples(st.lists(marker, min_size=1, max_size=1)))
    return st.lists(st.one_of(marker, marker, atom(terms), atom(terms), direct, alone), min_size=0, max_size=4)


def values():
    term = st.sampled_from(['?E1', '?E3', 'y', 7, None])
    inner = st.lists(st.tuples(st.just('inner'), term), max_size=2)
    atom = st.one_of(st.tuples(st.sampled_from(['r', 's']), term), st.tuples(st.just('not'), inner), st.tuples(st.just('count'), term, inner))
    return st.lists(atom, max_size=3)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    params = PARAMS[:n] if draw(st.booleans()) else draw(st.permutations(PARAMS[:3]))[:n]
    body = draw(bodies(params + ['__$Outer$__'] if draw(st.integers(0, 3)) == 0 else params))
    applications = []
    for _ in range(draw(st.integers(1, 3))):
        vals = [draw(values()) for _ in range(n)]
        if draw(st.integers(0, 2)) == 0:
            # a value that holds a marker, as when a template is built from another one
            i = draw(st.integers(0, n - 1))
            marker = draw(st.sampled_from(PARAMS))
            where = draw(st.integers(0, 2))
            if where == 0:
                vals[i] = vals[i] + [marker]
            elif where == 1:
                vals[i] = [marker] + vals[i]
            else:
                vals[i] = vals[i] + [('deep', [marker])]
        applications.append(vals)
    return dict(params=params, body=body, applications=applications)


def reference(x, mapping):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            if isinstance(y, str) and y in mapping:
                out.extend(mapping[y])
            else:
                out.append(reference(y, mapping))
        return type(x)(out)
    return x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def scribble(x):
    """damage every list inside a result"""
    if isinstance(x, list):
        for y in x:
            scribble(y)
        x.append(('scribble',))
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)


def depth_of(x, markers, depth=0):
    if isinstance(x, (list, tuple)):
        return max([depth_of(y, markers, depth + 1) for y in x], default=0)
    return depth if isinstance(x, str) and x in markers else 0


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def check(case, rec):
    from richard.processor.parser.helper.grammar_functions import apply
    from richard.type.SemanticTemplate import SemanticTemplate
    body = to_repo(case['body'])
    args = [[p] for p in case['params']]
    template = SemanticTemplate(args, body)
    for vals in case['applications']:
        given = [to_repo(v) for v in vals]
        kept = copy.deepcopy(given)
        expected = reference(case['body'], dict(zip(case['params'], vals)))
        result = apply(template, *given)
        expect(same(from_repo(result), expected), "wrong result of applying a template", body=case['body'], parameters=case['params'],
               values=vals, result=from_repo(result), expected=expected)
        expect(same(from_repo(given), from_repo(kept)), "applying a template changed its values", values=vals, now=from_repo(given))
        expect(same(from_repo(template.body), case['body']) and same(template.args, [[p] for p in case['params']]),
               "applying a template changed it", body=case['body'], now=from_repo(template.body))
        # results are independent of the template: damage to one must not show in the next
        scribble(result)
        expect([len(v) for v in given] == [len(v) for v in kept], "a result is the list of a value", body=case['body'], values=vals)
        expect(same(from_repo(template.body), case['body']), "a result shares lists with the template", body=case['body'])
    occurrences = [x for x in flat(case['body']) if isinstance(x, str) and x in case['params']]
    markers = any(isinstance(x, str) and x in PARAMS for v in case['applications'] for x in flat(v))
    deep = depth_of(case['body'], case['params'])
    if markers:
        rec.label("value with a marker")
    if deep >= 3:
        rec.label("parameter at depth 2+")
    if len(occurrences) > len(set(occurrences)):
        rec.label("repeated parameter")
    if set(case['params']) - set(occurrences):
        rec.label("unused parameter")
    rec.interesting(bool(occurrences) and (deep >= 3 or len(occurrences) > len(set(occurrences)) or markers))


PARTS = [Part("substitution", cases, check, quick=8000, thorough=200000)]
