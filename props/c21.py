"""C21: questions about a world get the answers that are true in it."""
import re

from hypothesis import strategies as st

from vlib.case import Discard, expect, fail
from vlib.lang import to_repo
from vlib.runner import Part
from vlib.world import make_model, placements

RULE = ("Random worlds (people, parks, books, cities; like, visit, know, give; partial ages; people related by rules) and random English "
        "questions and statements, built from names, every/some/no/exactly/more than/fewer than, superlatives, nouns with adjectives and "
        "relative clauses, active, passive, ditransitive, reflexive and negated verb phrases, comparisons, multiples, both/either, counting, averages, "
        "totals, percentages, pairs, triples, lists and tables, nested up to four deep. Several sentences per dialogue, some of which store facts. Each goes through parser, composer "
        "(with and without optimiser, with random sizes) and executor; the answers must be those of a set-theoretic evaluation of the "
        "generated question. Non-trivial: the question has a quantifier, negation or superlative besides its root, and the answer is "
        "neither empty nor everything (or a number, or a truth value of a statement with two quantifiers).")
ASSUMPTIONS = ["ages differ, so that superlatives have one answer", "'every' of nothing is false", "a name denotes one entity"]

NOUNS = {'person': ['person', 'human'], 'park': ['park', 'garden'], 'book': ['book'], 'city': ['city']}
VERBS = {'like': ('likes', 'liked'), 'visit': ('visits', 'visited'), 'know': ('knows', 'known'), 'help': ('helps', 'helped'),
         'match': ('matches', 'matched')}
DERIVED = {'help', 'match'}
ADJECTIVES = {'famous': 'famous', 'lonely': 'lonely'}
NAMES = ['bob', 'ann', 'xeno', 'xu li', 'central', 'emma', "o'neil", 'zeist', 'moby', 'otto']


# ---------------------------------------------------------------- questions

@st.composite
def nbs(draw, depth):
    noun = draw(st.sampled_from(['person', 'person', 'person', 'park', 'book', 'city']))
    kind = draw(st.sampled_from(['noun', 'noun', 'adj', 'that', 'that'] if depth > 0 else ['noun', 'noun', 'adj']))
    if kind == 'that':
        return ('that', noun, draw(vps(depth - 1)))
    if kind == 'adj':
        return ('adj', draw(st.sampled_from(sorted(ADJECTIVES))), noun)
    return ('noun', noun)


@st.composite
def nps(draw, depth, names):
    kind = draw(st.sampled_from(['name', 'every', 'some', 'no', 'exactly', 'more', 'fewer', 'oldest', 'youngest']))
    if kind == 'name':
        return ('name', draw(st.sampled_from(names)))
    if kind in ('exactly', 'more', 'fewer'):
        return (kind, draw(st.sampled_from([1, 2, 0, 3])), draw(nbs(depth)))
    return (kind, draw(nbs(depth)))


NAME_POOL = []
# names of the variables in the grammar
VARIABLES = [["E1", "E2", "E3", "E4"], ["E1", "E2", "E3", "E4"], ["Subj", "O", "Obj", "N"], ["Z", "Y", "X", "W"], ["A", "Aa", "Aaa", "Aaaa"], ["E10", "E1", "E100", "E2"]]


@st.composite
def vps(draw, depth):
    kinds = ['verb'] * 5 + ['passive', 'is', 'not_is', 'age', 'older', 'younger', 'give', 'self', 'over', 'times']
    if depth > 0:
        kinds += ['not', 'not', 'both', 'either', 'either']
    kind = draw(st.sampled_from(kinds))
    if kind in ('verb', 'passive'):
        return (kind, draw(st.sampled_from(sorted(VERBS))), draw(nps(depth, NAMES)))
    if kind == 'give':
        return (kind, draw(nps(depth, NAMES)), draw(nps(0, NAMES)))
    if kind == 'self':
        return (kind, draw(st.sampled_from(sorted(VERBS))))
    if kind == 'over':
        return (kind, draw(st.sampled_from([1, 7, 10, 33])))
    if kind == 'times':
        return (kind, draw(st.sampled_from([4, 10, 1, 0])), draw(nps(depth, NAMES)))
    if kind in ('is', 'not_is'):
        return (kind, draw(st.sampled_from(sorted(NOUNS) + sorted(ADJECTIVES))))
    if kind == 'age':
        return (kind, draw(st.sampled_from([1, 7, 10, 33])))
    if kind in ('older', 'younger'):
        return (kind, draw(nps(depth, NAMES)))
    if kind == 'not':
        return (kind, draw(vps(depth - 1)))
    return (kind, draw(vps(depth - 1)), draw(vps(depth - 1)))


@st.composite
def questions(draw, depth):
    kind = draw(st.sampled_from(['who', 'who', 'which', 'which', 'which_obj', 'which_obj', 'how_many', 'is_it', 'is_it', 'age', 'avg', 'sum',
                                 'percentage', 'statement', 'statement', 'remember', 'pairs', 'triples', 'split', 'list', 'table']))
    if kind == 'who':
        return (kind, draw(vps(depth)))
    if kind in ('which', 'how_many', 'percentage'):
        return (kind, draw(nbs(1)), draw(vps(depth)))
    if kind == 'which_obj':
        return (kind, draw(nbs(1)), draw(nps(depth, NAMES)), draw(st.sampled_from(sorted(VERBS))))
    if kind in ('is_it', 'statement'):
        return (kind, draw(nps(depth, NAMES)), draw(vps(depth)))
    if kind == 'age':
        return (kind, draw(st.one_of(nps(1, NAMES).filter(lambda n: n[0] in ('name', 'oldest', 'youngest')))))
    if kind in ('avg', 'sum', 'list', 'table'):
        return (kind, draw(nbs(2)))
    if kind == 'pairs':
        return (kind, draw(st.sampled_from(sorted(VERBS))), draw(nbs(depth)))
    if kind == 'triples':
        return (kind, draw(nbs(depth)), draw(nbs(1)))
    if kind == 'split':
        return (kind, draw(st.sampled_from(sorted(VERBS))), draw(nbs(depth)), draw(st.sampled_from(sorted(VERBS))), draw(nbs(1)))
    return (kind, draw(st.sampled_from(sorted(set(VERBS) - DERIVED))), draw(st.sampled_from(NAMES)), draw(st.sampled_from(NAMES)))


# ages differ; the sums are exact
AGES = [[1, 7, 10, 33, 4, 90, 2.5, 0], [1, 1.25, 0.75, 10, 10.5, 9.875, -3, 7], [7, 2**40, 2**40 + 1, 10, 2**40 - 1, 1, 4, 33]]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 7))
    pool = draw(st.sampled_from([list(range(1, 9)), ["a", "b", "c", "d", "e", "f", "g", "h"], [1, "1", 2, "p2", "É", "it's", 7, "8"]]))
    ids = pool[:n]
    naming = {name: ids[i % n] for i, name in enumerate(NAMES)}
    entity = st.sampled_from(ids)
    some = st.lists(entity, max_size=n, unique_by=lambda v: (type(v).__name__, v))
    people = ids[:draw(st.integers(1, n))] if draw(st.booleans()) else draw(some)
    world = dict(person=people, park=draw(some), book=draw(some), city=draw(some))
    facts = {name: (1, [(i,) for i in v]) for name, v in world.items()}
    pairs = st.lists(st.tuples(entity, entity), max_size=12, unique_by=repr)
    for verb in sorted(set(VERBS) - DERIVED):
        facts[verb] = (2, draw(pairs))
    facts['give'] = (3, draw(st.lists(st.tuples(entity, entity, entity), max_size=8, unique_by=repr)))
    ages = draw(st.permutations(draw(st.sampled_from(AGES))))
    facts['age'] = (2, [(i, a) for i, a in zip(ids, ages) if draw(st.integers(0, 4))])
    facts['famous'] = (1, [(i,) for i in draw(some)])
    sizes = {name: (draw(st.sampled_from([1, 10, 100, 10000])), [draw(st.sampled_from([1, 10, 100])) for _ in range(arity)])
             for name, (arity, _) in facts.items() if draw(st.booleans())}
    plan = []
    for _ in range(draw(st.integers(2, 5))):
        plan.append(dict(q=draw(questions(draw(st.sampled_from([0, 1, 1, 2])))), seed=draw(st.integers(0, 10**6))))
    return dict(naming=naming, facts=facts, modules=draw(placements(facts)), sizes=sizes, plan=plan, synonym=draw(st.integers(0, 1)),
                variables=draw(st.sampled_from(VARIABLES)))


# ---------------------------------------------------------------- evaluation

class World:
    def __init__(self, case):
        self.naming = case['naming']
        self.rows = {name: [tuple(r) for r in rows] for name, (_, rows) in case['facts'].items()}

    def key(self, v):
        return (type(v).__name__, v)

    def derive(self):
        self.sets = {name: {tuple(self.key(v) for v in r) for r in rows} for name, rows in self.rows.items()}
        s = self.sets
        # match(A, B) :- like(A, B), like(B, A).    help(A, B) :- know(A, B), not(like(A, B)).    help(A, B) :- give(A, C, B), book(C).
        s['match'] = {(a, b) for a, b in s['like'] if (b, a) in s['like']}
        s['help'] = (s['know'] - s['like']) | {(a, b) for a, c, b in s['give'] if (c,) in s['book']}
        # lonely(A) :- person(A), none(know(B, A)).
        s['lonely'] = {p for p in s['person'] if not any(b == p[0] for _, b in s['know'])}
        self.ages = {r[0]: r[1][1] for r in s['age']}
        self.everything = {self.key(v) for v in self.naming.values()}

    def nb(self, nb):
        if nb[0] == 'noun':
            return {e for (e,) in self.sets[nb[1]]}
        if nb[0] == 'adj':
            return {e for (e,) in self.sets[nb[2]] & self.sets[nb[1]]}
        return {e for (e,) in self.sets[nb[1]] if self.vp(nb[2], e)}

    def np(self, np, holds):
        """does the noun phrase have the property"""
        kind = np[0]
        if kind == 'name':
            return holds(self.key(self.naming[np[1]]))
        if kind in ('oldest', 'youngest'):
            e = self.extreme(kind, np[1])
            return e is not None and holds(e)
        range_ = self.nb(np[-1])
        good = {e for e in range_ if holds(e)}
        if kind == 'every':
            return len(range_) > 0 and len(good) == len(range_)
        if kind == 'some':
            return len(good) > 0
        if kind == 'no':
            return len(good) == 0
        return {'exactly': len(good) == np[1], 'more': len(good) > np[1], 'fewer': len(good) < np[1]}[kind]

    def extreme(self, kind, nb):
        aged = [(self.ages[e], e) for e in self.nb(nb) if e in self.ages]
        if not aged:
            return None
        return (max if kind == 'oldest' else min)(aged, key=lambda x: x[0])[1]

    def vp(self, vp, e):
        kind = vp[0]
        if kind == 'verb':
            return self.np(vp[2], lambda x: (e, x) in self.sets[vp[1]])
        if kind == 'passive':
            return self.np(vp[2], lambda x: (x, e) in self.sets[vp[1]])
        if kind == 'give':
            return self.np(vp[1], lambda x: self.np(vp[2], lambda y: (e, x, y) in self.sets['give']))
        if kind == 'is':
            return (e,) in self.sets[vp[1]]
        if kind == 'not_is':
            return (e,) not in self.sets[vp[1]]
        if kind == 'age':
            return e in self.ages and self.ages[e] == vp[1]
        if kind in ('older', 'younger'):
            if e not in self.ages:
                # the comparison can't be made; a phrase like 'no person' holds then
                return self.np(vp[1], lambda x: False)
            return self.np(vp[1], lambda x: x in self.ages and
                           (self.ages[e] > self.ages[x] if kind == 'older' else self.ages[e] < self.ages[x]))
        if kind == 'self':
            return (e, e) in self.sets[vp[1]]
        if kind == 'over':
            return e in self.ages and self.ages[e] > vp[1]
        if kind == 'times':
            return self.np(vp[2], lambda x: e in self.ages and x in self.ages and self.ages[e] == self.ages[x] * vp[1])
        if kind == 'not':
            return not self.vp(vp[1], e)
        if kind == 'both':
            return self.vp(vp[1], e) and self.vp(vp[2], e)
        return self.vp(vp[1], e) or self.vp(vp[2], e)

    def answer(self, q):
        """('set', values) | ('truth', bool) | ('number', n or None)"""
        kind = q[0]
        if kind == 'who':
            return 'set', {e for (e,) in self.sets['person'] if self.vp(q[1], e)}
        if kind == 'which':
            return 'set', {e for e in self.nb(q[1]) if self.vp(q[2], e)}
        if kind == 'which_obj':
            return 'set', {e for e in self.nb(q[1]) if self.np(q[2], lambda x: (x, e) in self.sets[q[3]])}
        if kind == 'how_many':
            return 'number', len({e for e in self.nb(q[1]) if self.vp(q[2], e)})
        if kind == 'percentage':
            range_ = self.nb(q[1])
            good = {e for e in range_ if self.vp(q[2], e)}
            return 'number', len(good) / len(range_) * 100.0 if range_ else None
        if kind in ('is_it', 'statement'):
            return 'truth', self.np(q[1], lambda x: self.vp(q[2], x))
        if kind == 'age':
            e = self.key(self.naming[q[1][1]]) if q[1][0] == 'name' else self.extreme(q[1][0], q[1][1])
            return 'number', self.ages.get(e)
        if kind == 'pairs':
            range_ = self.nb(q[2])
            return 'set', {(a, b) for a, b in self.sets[q[1]] if (a,) in self.sets['person'] and b in range_}
        if kind == 'triples':
            things, people = self.nb(q[1]), self.nb(q[2])
            return 'set', {(a, b, c) for a, b, c in self.sets['give'] if (a,) in self.sets['person'] and b in things and c in people}
        if kind == 'split':
            things, others = self.nb(q[2]), self.nb(q[4])
            return 'set', {(a, b, d) for a, b in self.sets[q[1]] for c, d in self.sets[q[3]]
                           if a == c and (a,) in self.sets['person'] and b in things and d in others}
        if kind == 'list':
            return 'list', {(e,) for e in self.nb(q[1])}
        if kind == 'table':
            return 'list', {(e, self.key(self.ages[e])) for e in self.nb(q[1]) if e in self.ages}
        ages = [self.ages[e] for e in self.nb(q[1]) if e in self.ages]
        if kind == 'sum':
            return 'number', sum(ages)
        return 'number', sum(ages) / len(ages) if ages else None


# ---------------------------------------------------------------- English

def say_nb(nb, syn):
    if nb[0] == 'noun':
        return NOUNS[nb[1]][syn % len(NOUNS[nb[1]])]
    if nb[0] == 'adj':
        return nb[1] + ' ' + say_nb(('noun', nb[2]), syn)
    return say_nb(('noun', nb[1]), syn) + ' that ' + say_vp(nb[2], syn)


def say_np(np, syn):
    if np[0] == 'name':
        return np[1]
    words = {'every': 'every', 'some': 'some', 'no': 'no', 'oldest': 'the oldest', 'youngest': 'the youngest'}
    if np[0] in words:
        return words[np[0]] + ' ' + say_nb(np[1], syn)
    return {'exactly': 'exactly', 'more': 'more than', 'fewer': 'fewer than'}[np[0]] + f' {np[1]} ' + say_nb(np[2], syn)


def say_vp(vp, syn):
    kind = vp[0]
    if kind == 'verb':
        return VERBS[vp[1]][0] + ' ' + say_np(vp[2], syn)
    if kind == 'passive':
        return 'is ' + VERBS[vp[1]][1] + ' by ' + say_np(vp[2], syn)
    if kind == 'give':
        return 'gives ' + say_np(vp[1], syn) + ' to ' + say_np(vp[2], syn)
    if kind in ('is', 'not_is'):
        word = vp[1] if vp[1] in ADJECTIVES else 'a ' + say_nb(('noun', vp[1]), syn)
        return ('is ' if kind == 'is' else 'is not ') + word
    if kind == 'age':
        return f'is {vp[1]} years old'
    if kind in ('older', 'younger'):
        return f'is {kind} than ' + say_np(vp[1], syn)
    if kind == 'self':
        return VERBS[vp[1]][0] + ' itself'
    if kind == 'over':
        return f'is over {vp[1]}'
    if kind == 'times':
        return f'is {vp[1]} times as old as ' + say_np(vp[2], syn)
    if kind == 'not':
        return 'fails to: ' + say_vp(vp[1], syn)
    return ('both ' if kind == 'both' else 'either ') + say_vp(vp[1], syn) + (' and ' if kind == 'both' else ' or ') + say_vp(vp[2], syn)


def say(q, syn):
    kind = q[0]
    if kind == 'who':
        return 'who ' + say_vp(q[1], syn) + '?'
    if kind in ('which', 'how_many', 'percentage'):
        start = {'which': 'which', 'how_many': 'how many', 'percentage': 'what percentage of'}[kind]
        return start + ' ' + say_nb(q[1], syn) + ', ' + say_vp(q[2], syn) + '?'
    if kind == 'which_obj':
        return 'which ' + say_nb(q[1], syn) + ' does ' + say_np(q[2], syn) + ', ' + q[3] + '?'
    if kind == 'is_it':
        return 'is it true that ' + say_np(q[1], syn) + ', ' + say_vp(q[2], syn) + '?'
    if kind == 'statement':
        return say_np(q[1], syn) + ', ' + say_vp(q[2], syn) + '.'
    if kind == 'age':
        return 'how old is ' + say_np(q[1], syn) + '?'
    if kind in ('avg', 'sum'):
        return f"what is the {'average' if kind == 'avg' else 'total'} age of each " + say_nb(q[1], syn) + '?'
    if kind == 'pairs':
        return f'who {VERBS[q[1]][0]} which ' + say_nb(q[2], syn) + '?'
    if kind == 'triples':
        return 'who gives which ' + say_nb(q[1], syn) + ', to which ' + say_nb(q[2], syn) + '?'
    if kind == 'split':
        return f'who {VERBS[q[1]][0]} which ' + say_nb(q[2], syn) + f', and {VERBS[q[3]][0]} which ' + say_nb(q[4], syn) + '?'
    if kind == 'list':
        return 'list each ' + say_nb(q[1], syn) + '.'
    if kind == 'table':
        return 'list the age of each ' + say_nb(q[1], syn) + '.'
    return f"remember that {q[2]} {VERBS[q[1]][0]} {q[3]}."


def spell(text, seed):
    """random letter case and white space; the same for the same seed"""
    import random
    r = random.Random(seed)
    style = r.choice(['plain', 'upper', 'mixed', 'first'])
    if style == 'upper':
        text = text.upper()
    elif style == 'mixed':
        text = "".join(c.upper() if r.random() < .5 else c for c in text)
    elif style == 'first':
        text = text[0].upper() + text[1:]
    if r.random() < .5:
        text = "".join(r.choice([' ', '  ', '\t', '\n ', ' ']) if c == ' ' else c for c in text)
    return text


# ---------------------------------------------------------------- the grammar under test

def grammar(names):
    from richard.core.constants import Body
    from richard.entity.ReifiedVariable import ReifiedVariable
    from richard.entity.Variable import Variable
    from richard.processor.parser.helper.grammar_functions import apply
    from richard.type.SemanticTemplate import SemanticTemplate

    E1, E2, E3, E4 = (Variable(name) for name in names)
    rules = [
        # sentences
        dict(syn="s(E1) -> 'who' vp(E1)+'?'", sem=lambda vp: [('person', E1)] + vp),
        dict(syn="s(E1) -> 'which' nb(E1)+',' vp(E1)+'?'", sem=lambda nb, vp: nb + vp),
        dict(syn="s(E1) -> 'which' nb(E1) 'does' np(E2)+',' tv(E2, E1)+'?'", sem=lambda nb, np, tv: nb + apply(np, tv)),
        dict(syn="s(E1) -> 'how' 'many' nb(E2)+',' vp(E2)+'?'", sem=lambda nb, vp: [('count', E1, nb + vp)]),
        dict(syn="s(E1) -> 'what' 'percentage' 'of' nb(E2)+',' vp(E2)+'?'", sem=lambda nb, vp: [('percentage', E1, nb + vp, nb)]),
        dict(syn="s() -> 'is' 'it' 'true' 'that' np(E1)+',' vp(E1)+'?'", sem=lambda np, vp: apply(np, vp)),
        dict(syn="s() -> np(E1)+',' vp(E1)+'.'", sem=lambda np, vp: apply(np, vp)),
        dict(syn="s(E1) -> 'how' 'old' 'is' np(E2)+'?'", sem=lambda np: apply(np, [('age', E2, E1)])),
        dict(syn="s(E1) -> 'what' 'is' 'the' 'average' 'age' 'of' 'each' nb(E2)+'?'", sem=lambda nb: [('avg', E1, E3, nb + [('age', E2, E3)])]),
        dict(syn="s(E1) -> 'what' 'is' 'the' 'total' 'age' 'of' 'each' nb(E2)+'?'", sem=lambda nb: [('sum', E1, E3, nb + [('age', E2, E3)])]),
        dict(syn="s(E1, E2) -> 'who' tv3(E1, E2) 'which' nb(E2)+'?'", sem=lambda tv, nb: [('person', E1)] + tv + nb),
        dict(syn="s(E1, E2, E3) -> 'who' 'gives' 'which' nb(E2)+',' 'to' 'which' nb(E3)+'?'",
             sem=lambda nb1, nb2: [('person', E1)] + nb1 + nb2 + [('give', E1, E2, E3)]),
        dict(syn="s(E1, E2, E3) -> 'who' tv3(E1, E2) 'which' nb(E2)+',' 'and' tv3(E1, E3) 'which' nb(E3)+'?'",
             sem=lambda tv1, nb1, tv2, nb2: [('person', E1)] + tv1 + nb1 + tv2 + nb2),
        dict(syn="s(E1) -> 'list' 'each' nb(E2)+'.'", sem=lambda nb: [('find_all', [ReifiedVariable(names[1])], nb, E1)]),
        dict(syn="s(E1) -> 'list' 'the' 'age' 'of' 'each' nb(E2)+'.'",
             sem=lambda nb: [('find_all', [ReifiedVariable(names[1]), ReifiedVariable(names[2])], nb + [('age', E2, E3)], E1)]),
        dict(syn="s(E1, E2) -> 'remember' 'that' name(E1) tv3(E1, E2) name(E2)+'.'",
             sem=lambda name1, tv, name2: name1 + name2 + [('store', tv)]),
        # noun phrases
        dict(syn="np(E1) -> name(E1)", sem=lambda name: SemanticTemplate([Body], name + Body)),
        dict(syn="np(E1) -> 'every' nb(E1)", sem=lambda nb: SemanticTemplate([Body], [('scoped', [('all', E1, nb, Body)])])),
        dict(syn="np(E1) -> 'some' nb(E1)", sem=lambda nb: SemanticTemplate([Body], [('scoped', nb + Body)])),
        dict(syn="np(E1) -> 'no' nb(E1)", sem=lambda nb: SemanticTemplate([Body], [('none', nb + Body)])),
        dict(syn="np(E1) -> 'exactly' number(E2) nb(E1)", sem=lambda number, nb: SemanticTemplate([Body], [('det_equals', nb + Body, number)])),
        dict(syn="np(E1) -> 'more' 'than' number(E2) nb(E1)",
             sem=lambda number, nb: SemanticTemplate([Body], [('det_greater_than', nb + Body, number)])),
        dict(syn="np(E1) -> 'fewer' 'than' number(E2) nb(E1)",
             sem=lambda number, nb: SemanticTemplate([Body], [('det_less_than', nb + Body, number)])),
        dict(syn="np(E1) -> 'the' 'oldest' nb(E1)", sem=lambda nb: SemanticTemplate([Body], [('arg_max', E1, E4, nb + [('age', E1, E4)])] + Body)),
        dict(syn="np(E1) -> 'the' 'youngest' nb(E1)", sem=lambda nb: SemanticTemplate([Body], [('arg_min', E1, E4, nb + [('age', E1, E4)])] + Body)),
        # nouns
        dict(syn="nb(E1) -> noun(E1)", sem=lambda noun: noun),
        dict(syn="nb(E1) -> adj(E1) noun(E1)", sem=lambda adj, noun: adj + noun),
        dict(syn="nb(E1) -> noun(E1) 'that' vp(E1)", sem=lambda noun, vp: noun + vp),
        # verb phrases
        dict(syn="vp(E1) -> tv3(E1, E2) np(E2)", sem=lambda tv, np: apply(np, tv)),
        dict(syn="vp(E1) -> 'is' pp(E2, E1) 'by' np(E2)", sem=lambda pp, np: apply(np, pp)),
        dict(syn="vp(E1) -> 'gives' np(E2) 'to' np(E3)", sem=lambda np1, np2: apply(np1, apply(np2, [('give', E1, E2, E3)]))),
        dict(syn="vp(E1) -> 'is' 'a' noun(E1)", sem=lambda noun: noun),
        dict(syn="vp(E1) -> 'is' adj(E1)", sem=lambda adj: adj),
        dict(syn="vp(E1) -> 'is' 'not' 'a' noun(E1)", sem=lambda noun: [('not', noun)]),
        dict(syn="vp(E1) -> 'is' 'not' adj(E1)", sem=lambda adj: [('not', adj)]),
        dict(syn="vp(E1) -> 'is' number(E2) 'years' 'old'", sem=lambda number: [('age', E1, number)]),
        dict(syn="vp(E1) -> 'is' 'older' 'than' np(E2)",
             sem=lambda np: apply(np, [('age', E1, E3), ('age', E2, E4), ('greater_than', E3, E4)])),
        dict(syn="vp(E1) -> 'is' 'younger' 'than' np(E2)",
             sem=lambda np: apply(np, [('age', E1, E3), ('age', E2, E4), ('less_than', E3, E4)])),
        dict(syn="vp(E1) -> tv3(E1, E1) 'itself'", sem=lambda tv: tv),
        dict(syn="vp(E1) -> 'is' 'over' number(E2)", sem=lambda number: [('age', E1, E3), ('greater_than', E3, number)]),
        dict(syn="vp(E1) -> 'is' number(E3) 'times' 'as' 'old' 'as' np(E2)",
             sem=lambda number, np: apply(np, [('age', E1, E3), ('age', E2, E4), ('multiply', E4, number, E3)])),
        dict(syn="vp(E1) -> 'fails' 'to'+':' vp(E1)", sem=lambda vp: [('not', vp)]),
        dict(syn="vp(E1) -> 'both' vp(E1) 'and' vp(E1)", sem=lambda vp1, vp2: vp1 + vp2),
        dict(syn="vp(E1) -> 'either' vp(E1) 'or' vp(E1)", sem=lambda vp1, vp2: [('scoped', [('$disjunction', [vp1, vp2])])]),
        # names and numbers
        dict(syn="number(E1) -> /\\d+/", sem=lambda token: int(token)),
        dict(syn="name(E1) -> /[xX]\\w+/", sem=lambda token: [('resolve_name', token, E1)]),
        dict(syn="name(E1) -> /[xX]\\w+/ /[lL][iI]/", sem=lambda t1, t2: [('resolve_name', t1 + ' ' + t2, E1)]),
    ]
    for name in NAMES:
        if name[0] != 'x':
            rules.append(dict(syn="name(E1) -> '" + name.replace("'", "\\'") + "'", sem=lambda name=name: [('resolve_name', name, E1)]))
    for predicate, words in NOUNS.items():
        for word in words:
            rules.append(dict(syn=f"noun(E1) -> '{word}'", sem=lambda predicate=predicate: [(predicate, E1)]))
    for word in ADJECTIVES:
        rules.append(dict(syn=f"adj(E1) -> '{word}'", sem=lambda word=word: [(word, E1)]))
    for predicate, (third, participle) in VERBS.items():
        for cat, word in (('tv', predicate), ('tv3', third), ('pp', participle)):
            rules.append(dict(syn=f"{cat}(E1, E2) -> '{word}'", sem=lambda predicate=predicate: [(predicate, E1, E2)]))
    for rule in rules:
        rule['syn'] = re.sub(r"\bE([1-4])\b", lambda m: names[int(m.group(1)) - 1], rule['syn'])
    return rules


INFERENCE = """
    match(A, B) :- like(A, B), like(B, A).
    help(A, B) :- know(A, B), not(like(A, B)).
    help(A, B) :- give(A, C, B), book(C).
    lonely(A) :- person(A), none(know(B, A)).
"""


def quantifiers(q):
    n = 0
    if isinstance(q, tuple):
        n += q[0] in ('every', 'no', 'exactly', 'more', 'fewer', 'oldest', 'youngest', 'not', 'not_is', 'some', 'either')
        for part in q[1:]:
            n += quantifiers(part)
    return n


def check(case, rec):
    from richard.block.FindOne import FindOne
    from richard.core.System import System
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

    world = World(case)
    learned = {verb: [] for verb in VERBS if verb not in DERIVED}

    class Names(SomeModule):
        """resolves names, in any letter case; and remembers facts"""
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("resolve_name", query_function=self.resolve, arguments=['name', 'id']))
            for verb in learned:
                self.add_relation(Relation(verb, query_function=self.recall, write_function=self.remember, arguments=['a', 'b']))

        def resolve(self, values, context):
            found = case['naming'][values[0].lower()]
            return [[None, found]] if values[1] is None or world.key(values[1]) == world.key(found) else []

        def recall(self, values, context):
            return [list(r) for r in learned[context.relation.predicate]
                    if all(v is None or (type(v) is type(x) and v == x) for v, x in zip(values, r))]

        def remember(self, values, context):
            learned[context.relation.predicate].append(tuple(values))

    inference = InferenceModule()
    rules, position = SimpleInferenceRuleParser().parse(INFERENCE)
    if position is not None:
        fail("the rules could not be parsed", position=position)
    for rule in rules:
        inference.insert_rule(rule)
    model = make_model(case['modules'], case['sizes'], extra=[Names(), inference])
    parsed = SimpleGrammarRulesParser().parse_read_grammar(grammar(case["variables"]))
    parser = BasicParser(parsed)
    systems = []
    for optimizer in (None, BasicQueryOptimizer(model)):
        composer = SemanticComposer(parser, query_optimizer=optimizer) if optimizer else SemanticComposer(parser)
        executor = AtomExecutor(composer, model)
        systems.append((composer, executor, System(model=model, input_pipeline=[FindOne(parser), FindOne(composer), FindOne(executor)])))

    for item in case['plan']:
        q = item['q']
        text = spell(say(q, case['synonym']), item['seed'])
        world.derive()
        if q[0] == 'remember':
            row = tuple(case['naming'][n] for n in q[2:])
            world.rows[q[1]].append(row)
            systems[item['seed'] % 2][2].enter(SentenceRequest(text))
            rec.label('remember')
            continue
        kind, expected = world.answer(q)
        for name, (composer, executor, system) in zip(('plain', 'optimised'), systems):
            request = SentenceRequest(text)
            system.enter(request)
            meaning = request.get_current_product(composer)
            bindings = request.get_current_product(executor).bindings
            detail = dict(text=text, pipeline=name, meaning=meaning.get_semantics_last_iteration(), naming=case['naming'], facts=world.rows)
            if kind == 'truth':
                expect((len(bindings) > 0) == expected, "the truth of a statement is wrong", expected=expected, bindings=bindings, **detail)
                continue
            if kind == 'list':
                expect(len(bindings) == 1, "a list is not one answer", bindings=bindings, **detail)
                rows = [tuple(world.key(v) for v in row) for row in bindings[0].get(meaning.return_variables[0], [])]
                expect(len(rows) == len(set(rows)) and set(rows) == expected, "the list does not have exactly the true rows", expected=sorted(expected, key=repr),
                       got=rows, **detail)
                continue
            if q[0] in ('pairs', 'triples', 'split'):
                got = {tuple(world.key(b.get(v)) for v in meaning.return_variables) for b in bindings}
                expect(got == expected, "the question does not get exactly the true combinations", expected=sorted(expected, key=repr),
                       got=sorted(got, key=repr), **detail)
                continue
            variable = meaning.return_variables[0]
            values = [b.get(variable) for b in bindings]
            if kind == 'set':
                got = {world.key(v) for v in values}
                expect(got == expected, "the question does not get exactly the true answers", expected=sorted(expected, key=repr),
                       got=sorted(got, key=repr), **detail)
            elif expected is None:
                expect(values == [], "there is no such number", got=values, **detail)
            else:
                expect(len(values) > 0 and None not in values and all(abs(v - expected) < 1e-9 for v in values), "the number is wrong", expected=expected, got=values,
                       **detail)
        rec.label(q[0])
        count = quantifiers(q)
        if kind == 'list' or q[0] in ('pairs', 'triples', 'split'):
            rec.interesting(count >= 1 and len(expected) > 0)
        elif kind == 'set':
            rec.interesting(count >= 1 and 0 < len(expected) < len(world.everything))
            if expected:
                rec.label('answers')
        elif kind == 'truth':
            rec.label(str(expected).lower())
            rec.interesting(count >= 2)
        else:
            rec.interesting(count >= 1 and bool(expected))


PARTS = [Part('questions', cases, check, quick=6000, thorough=200000)]
