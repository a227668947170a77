"""Worlds with hundreds of facts, and queries over them that stay small enough to evaluate naively."""
from hypothesis import strategies as st

CHAINS = [[('r', '?X', '?Y')], [('p', '?X'), ('r', '?X', '?Y')], [('age', '?X', '?N')], [('p', '?X')], [('r', '?X', '?Y'), ('age', '?Y', '?N')],
          [('r', '?X', '?Y'), ('p', '?Y')], [('r', '?X', '?X')], [('age', '?X', '?N'), ('r', '?X', '?Y')], [('r', '?X', '?Y'), ('r', '?Y', '?Z')],
          [('r', '?Y', '?X')], [('r', '?X', '?Y'), ('r', '?Y', '?X')]]


def at_high(draw, n):
    return draw(st.integers(0, n)) == n


@st.composite
def many_facts(draw):
    """{predicate: (arity, rows)}; entities e0, e1, ...; r is not a function, age is one"""
    n = draw(st.sampled_from([60, 101, 130, 150, 205, 257, 300]))
    m = draw(st.sampled_from([n, n, n // 2, n // 3, 20, 7]))
    a, b, c, d, k = (draw(st.integers(1, 40)) for _ in range(5))
    e = lambda i: f"e{i % m}"
    p = [(e(i * a),) for i in range(0, n, draw(st.sampled_from([1, 1, 2, 3])))]
    r = [(e(i), e(i * b + c + i // m)) for i in range(n)]
    age = [(e(i), (i * d) % k + draw(st.sampled_from([0, 0, -5, 0.5]))) for i in range(m)]
    if draw(st.booleans()):
        # the same value far apart
        r = r + r[:draw(st.integers(1, 5))]
        p = p + p[:3]
    return {'p': (1, p), 'r': (2, r), 'age': (2, age)}


@st.composite
def chains(draw, data, needs=()):
    """an atom list with at most a few thousand answers"""
    atoms = draw(st.sampled_from([c for c in CHAINS if all(any(n in a for a in c) for n in needs)]))
    if draw(st.integers(0, 5)) == 5:
        v = draw(st.sampled_from(['?X', '?Y']))
        if v not in needs:
            atoms = [tuple(data['r'][1][3][0] if t == v else t for t in a) for a in atoms]
    return list(atoms)
