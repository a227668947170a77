"""C30: the demonstration applications answer truly, in any order of questions."""
from hypothesis import strategies as st

from vlib.case import Discard, expect, fail
from vlib.runner import Part
from vlib import chat80

RULE = ("Part `chat80`: random dialogues with the Chat-80 application of the repository (its read and write grammar, intents, module and database), over "
        "the repository's geography and over random geographies: 18 kinds of questions (lists, yes/no, counts, tables, totals, averages, "
        "percentages, places, sizes) with determiners, superlatives, adjectives, relative clauses, prepositional phrases, negation, "
        "populations, in any letter case, with questions that are not understood or fail in between. Answers must be those of a "
        "set-theoretic evaluation of the question over the tables. Non-trivial: an answer that is not empty, zero or no. "
        "Part `demos`: the dialogues of the repository's applications (Chat-80, Cooper, SIR, hello world), with their questions in another order and "
        "repeated, statements of Cooper in another order, senseless sentences in between, and a logger; every expected output must come. "
        "Non-trivial: an order that differs from the original.")
ASSUMPTIONS = ["at most one modifier follows a noun, so that there is no question about what it belongs to", "there is only one largest or smallest thing",
               "no names that end in s"]

FIXED = [dict(zip(['id'], [c])) for c in ['africa', 'america', 'asia', 'europe', 'antarctica']]
CONTINENT_OF = {'european': 'europe', 'asian': 'asia', 'american': 'america', 'african': 'africa'}
NAMES = ['abba', 'bolo', 'cadmo', 'dirk', 'elba', 'fango', 'gorm', 'hilo', 'ixo', 'jura', 'kola', 'lumo', 'mira', 'nord', 'opal', 'pint', 'quo',
         'rima', 'sota', 'tibo', 'ur', 'vela', 'wick', 'xan', 'yuma', 'zork', 'a1', 'big_b', 'x2', 'north', 'ab', 'abb', 'million_x', 'ana', 'i', 'le', 'thee', 'noa']
BROKEN = ["What?", "", "Is there a city in nowhere_land?", "Does abba", "How large is europe?", "which which", "Bye.", "What is the capital of atlanti_x?"]


@st.composite
def geographies(draw):
    names = list(draw(st.permutations(NAMES)))
    take = lambda lo, hi: [names.pop() for _ in range(draw(st.integers(lo, hi)))]
    countries, cities, seas, rivers, oceans = take(1, 7), take(1, 5), take(0, 3), take(0, 4), take(0, 3)
    if draw(st.integers(0, 3)) == 3:
        # a city with the name of its country
        cities.append(countries[0])
    regions = [r for rs in chat80.REGIONS.values() for r in rs]
    areas = draw(st.permutations(range(0, 60, 7)))
    tables = {'continent': FIXED, 'ocean': [dict(id=x) for x in oceans], 'sea': [dict(id=x) for x in seas]}
    tables['country'] = []
    contains = []
    regions = draw(st.lists(st.sampled_from(regions), min_size=1, max_size=3, unique=True))
    capitals = list(draw(st.permutations(cities)))
    for i, c in enumerate(countries):
        region = draw(st.sampled_from(regions))
        capital = capitals.pop() if capitals and draw(st.integers(0, 3)) else c + '_city'
        tables['country'].append(dict(id=c, region=region, lat=draw(st.sampled_from([-30, -1.5, 0, 2, 45, 60])), long=0, area_div_1000=areas[i],
                                      area_mod_1000=0, population=draw(st.sampled_from([0, 1, 2, 10, 50])), population_mod_1000000_div_1000=0,
                                      capital=capital, currency='x'))
        contains.append((region, c))
    tables['city'] = [dict(id=c, country=draw(st.sampled_from(countries)), population=draw(st.sampled_from([8, 1000, 1001, 2000, 5000]))) for c in cities]
    for r in regions:
        contains += [(c, r) for a, c in CONTINENT_OF.items() if r in chat80.REGIONS[a]]
    for c in tables['city']:
        if draw(st.integers(0, 4)):
            contains.append((c['country'], c['id']))
    water = seas + oceans
    tables['river'] = []
    for r in rivers:
        through = draw(st.lists(st.sampled_from(countries), min_size=1, max_size=3, unique=True))
        mouth = draw(st.sampled_from(water or through))
        tables['river'].append(dict(id=r, flows_through="|".join([mouth] + through)))
        contains += [(c, r) for c in through]
    things = countries + water
    pairs = draw(st.lists(st.tuples(st.sampled_from(countries), st.sampled_from(things)), max_size=14, unique=True))
    # both directions may be in the table
    pairs = [(a, b) for a, b in pairs if a != b]
    tables['borders'] = [dict(country_id1=a, country_id2=b) for a, b in pairs]
    contains = list(dict.fromkeys((a, b) for a, b in contains if a != b))
    tables['contains'] = [dict(whole=a, part=b) for a, b in contains]
    return tables


class Asker:
    """draws questions about a world"""
    def __init__(self, draw, world):
        self.draw, self.world = draw, world
        self.names = {t: sorted(n for n in ids if not n.endswith('s') and n.replace('_', 'a').isalnum()) for t, ids in world.ids.items()}

    def pick(self, *options):
        return self.draw(st.sampled_from(options))

    def flip(self, n=2):
        return self.draw(st.integers(0, n - 1)) == n - 1

    def name(self, *types):
        pool = [n for t in types for n in self.names[t]]
        if not pool:
            raise Discard("no names")
        n = self.draw(st.sampled_from(pool))
        return ('name', n, 'the') if self.flip(3) else ('name', n)

    def nbar(self, noun=None, plural=True, post=True, superlative=True):
        noun = noun or self.pick('country', 'country', 'country', 'river', 'ocean', 'sea', 'city', 'continent', 'capital')
        adjectives = (self.pick(*sorted(chat80.REGIONS)),) if noun == 'country' and self.flip(3) else ()
        sup = self.pick('largest', 'smallest') if superlative and noun == 'country' and self.flip(4) else None
        return ('nbar', noun, plural, adjectives, sup, self.post(noun) if post and not sup and self.flip() else None)

    def thing(self):
        return self.pick('country', 'country', 'sea', 'ocean')

    def np(self, *nouns, post=False):
        noun = self.pick(*nouns)
        kind = self.draw(st.integers(0, 6))
        if kind < 2 and self.names[noun]:
            return self.name(noun)
        det = self.pick('a', 'the', 'some', 'any', 'no', 1, 2, ('more', 1), ('more', 2), None)
        plural = not (det in ('a', 1)) and self.flip()
        return ('np', det, self.nbar(noun, plural, post=post, superlative=det not in ('no',) and not isinstance(det, (int, tuple))))

    def subject(self, *nouns):
        np = self.np(*nouns)
        return np if np[0] == 'name' or np[1] else ('np', 'some', np[2])

    def amount(self, kind):
        million = self.pick(1000000, 2000000, 10000000, 5000000, 0, 1, 8000)
        if self.flip(3) and self.names[kind]:
            return ('population', self.name(kind)[1])
        return ('number', million)

    def vp(self, noun):
        kind = self.pick('borders', 'borders', 'borders', 'not', 'contains', 'flows') if noun != 'river' else self.pick('flows', 'flows', 'borders', 'not')
        if kind == 'not':
            return ('not', self.vp(noun)) if self.flip(4) else ('not', ('borders', self.np('country', 'sea', 'ocean')))
        if kind == 'borders':
            return ('borders', self.np('country', 'sea', 'ocean'))
        if kind == 'contains':
            return ('contains', self.np('city', 'river', 'country'))
        return ('flows', self.np('country'))

    def post(self, noun):
        kinds = ['that', 'that', 'ing', 'and that', 'in', 'not in', 'and']
        if noun in ('country', 'city'):
            kinds += ['whose', 'with', 'south' if noun == 'country' else 'whose']
        if noun == 'capital':
            kinds += ['of', 'of', 'of', 'whose']
        kind = self.pick(*kinds)
        place = self.np('continent', 'country') if self.flip(3) else self.name('continent', 'country')
        if kind == 'in':
            return ('in', place)
        if kind == 'not in':
            return ('not', ('in', place))
        if kind == 'of':
            return ('of', self.np('country'))
        if kind == 'south':
            return ('south', self.south())
        if kind == 'and':
            first = ('south', self.south()) if noun == 'country' else ('in', self.name('continent', 'country'))
            return ('and', first, ('not', ('in', self.name('continent', 'country'))))
        if kind == 'ing':
            return ('ing', ('borders', self.np('country', 'sea', 'ocean')))
        if kind in ('whose', 'with'):
            return (kind, ('population', self.amount(noun if noun in ('country', 'city') else 'city')))
        if kind == 'and that':
            return ('and that', ('that', ('borders', self.np('country', 'sea', 'ocean'))), ('that', ('borders', self.np('country', 'sea', 'ocean'))))
        return ('that', ('bordered', self.np('country', 'sea', 'ocean')) if self.flip(3) else self.vp(noun))

    def south(self):
        pool = [c for c in self.names['country'] if self.world.country[c]['lat'] not in ('', None)]
        if len(pool) < len(self.world.country):
            return 'equator'
        return self.pick('equator', *pool)

    def question(self):
        kind = self.pick('there', 'what there', 'which adj', 'which post', 'what is', 'what is', 'which vp', 'which vp', 'which vp', 'does', 'does', 'does',
                         'is there', 'is there', 'is there each', 'where', 'how large', 'capital is', 'how many', 'how many', 'capitals', 'from which',
                         'total', 'average', 'percentage')
        bare = lambda noun, **k: ('np', None, self.nbar(noun, **k))
        if kind == 'there':
            return (kind, self.nbar(superlative=False))
        if kind == 'what there':
            noun = self.pick('country', 'river', 'city', 'sea')
            return (kind, self.nbar(noun, post=False, superlative=False)[:5] + (self.pick(
                ('in', self.name('continent', 'country')), ('not', ('in', self.name('continent'))), ('in', self.np('continent', 'country'))),))
        if kind == 'which adj':
            return (kind, ('nbar', 'country', True, (self.pick(*sorted(chat80.REGIONS)),), None, self.post('country') if self.flip(3) else None))
        if kind == 'which post':
            noun = self.pick('country', 'country', 'sea', 'ocean')
            return (kind, self.nbar(noun, post=False, superlative=False)[:5] + (('that', ('bordered', self.np('country', 'sea', 'ocean'))),))
        if kind == 'what is':
            start = self.pick('What is', 'What are', 'Which is')
            det = self.pick('the', 'the', 'the', None, 'some')
            nb = self.nbar(plural=self.flip())
            if start == 'What are' and nb[1] in ('capital', 'country') and nb[5] and nb[5][0] == 'of':
                start = 'What is'
            return (kind, ('np', det, nb), start)
        if kind == 'which vp':
            noun = self.pick('country', 'country', 'country', 'river', 'city', 'sea')
            nb = self.nbar(noun, plural=self.flip())
            if noun in ('country', 'city') and self.flip(3):
                vp = ('population', self.amount(noun))
            else:
                vp = self.vp(noun)
            return (kind, ('np', None, nb), vp)
        if kind == 'does':
            noun = self.pick('country', 'country', 'country', 'river', 'ocean')
            return (kind, self.subject(noun), self.vp(noun))
        if kind == 'is there':
            np = self.np('country', 'country', 'city', 'ocean', 'sea', 'river', post=True)
            return (kind, np if np[0] != 'name' else ('np', 'some', self.nbar()))
        if kind == 'is there each':
            return (kind, ('np', self.pick('a', 'some', 1, ('more', 1), 'no'), self.nbar(self.pick('country', 'city', 'river'), post=False, superlative=False)),
                    self.nbar(self.pick('continent', 'country'), plural=False, post=False, superlative=False))
        if kind in ('where', 'how large'):
            return (kind, self.name('country') if self.flip() else ('np', 'the', self.nbar('country', plural=False)))
        if kind == 'capital is':
            return (kind, self.nbar('country', plural=False, post=False, superlative=False), self.name('city')[1])
        if kind == 'how many':
            noun, vp = self.pick(('country', 'flown'), ('country', 'flown'), ('country', 'bordered'), ('country', 'contained'), ('country', 'bordered'))
            if vp == 'bordered':
                return (kind, self.nbar(noun, post=False, superlative=False), ('bordered', self.np('country', 'sea', 'ocean')))
            whole = {'flown': ('river',), 'contained': ('continent', 'country')}[vp]
            return (kind, self.nbar(noun, post=False, superlative=False), (vp, self.np(*whole)))
        if kind == 'capitals':
            return (kind, ('np', self.pick('the', None), self.nbar('country', superlative=False)) if self.flip() else self.name('country'))
        if kind == 'from which':
            return (kind, ('np', self.pick('the', None), self.nbar('country', post=False)), self.np('river'), self.np('sea', 'ocean'))
        if kind == 'total':
            return (kind, ('np', self.pick('the', None), self.nbar('country')))
        if kind == 'average':
            return (kind, ('np', self.pick('the', None), self.nbar('country', post=False, superlative=False)),
                    self.nbar(self.pick('continent', 'country'), plural=False, post=False, superlative=False))
        countries = self.nbar('country', post=False)
        if self.flip():
            # countries of a region lie in its continent
            countries = ('nbar', 'country', True, (self.pick(*sorted(chat80.REGIONS)),), None, None)
            return (kind, ('np', None, countries), 'contains', ('nbar', 'continent', False, (), None, None))
        return (kind, ('np', None, countries), self.pick('borders', 'borders', 'contains'),
                self.nbar(self.pick('ocean', 'sea', 'continent', 'country', 'river'), plural=False, post=False, superlative=False))


def slow(q):
    """takes many seconds in the geography of the repository"""
    return q[0] in ('is there each', 'average', 'percentage') and q[-1][1] == 'country' or q[0] == 'what there' and q[1][5][-1][0] == 'np'


REAL = []


def real_world():
    if not REAL:
        REAL.append(chat80.World(chat80.real_tables()))
    return REAL[0]


@st.composite
def cases(draw):
    tables = None if draw(st.integers(0, 5)) == 0 else draw(geographies())
    world = chat80.World(tables) if tables else real_world()
    asker = Asker(draw, world)
    plan = []
    for _ in range(draw(st.integers(1, 5 if tables else 2))):
        if plan and draw(st.integers(0, 7)) == 7:
            plan.append(dict(text=draw(st.sampled_from(BROKEN))))
        elif plan and draw(st.integers(0, 7)) == 7:
            plan.append(dict(draw(st.sampled_from(plan))))
        else:
            try:
                question = asker.question()
                if not tables and slow(question):
                    raise Discard
                plan.append(dict(q=question, case=draw(st.sampled_from(['as is', 'as is', 'upper', 'lower', 'title']))))
            except Discard:
                pass
    return dict(tables=tables, plan=plan)


def respell(text, how):
    """other letters, except in plurals, of which the application uses the letters as they are"""
    change = {'upper': str.upper, 'lower': str.lower, 'title': str.title}.get(how, str)
    return " ".join(w if w.rstrip("?").endswith("s") else change(w) for w in text.split(" "))


def check(case, rec):
    from richard.entity.SentenceRequest import SentenceRequest
    world = chat80.World(case['tables']) if case['tables'] else real_world()
    steps = []
    for step in case['plan']:
        if 'q' in step:
            try:
                steps.append((chat80.say(step['q']), world.answer(step['q']), step))
            except (chat80.Tie, chat80.Unanswerable):
                pass
        else:
            steps.append((step['text'], None, step))
    if not any(s[1] is not None for s in steps):
        raise Discard("nothing to ask")
    system = chat80.build(case['tables'])
    rec.label("world:" + ("random" if case['tables'] else "real"))
    history = []
    for text, expected, step in steps:
        text = respell(text, step.get('case'))
        history.append(text)
        if expected is None:
            try:
                system.enter(SentenceRequest(text))
                system.read_output()
            except Exception:
                rec.label("raised in between")
            continue
        rec.label(step['q'][0])
        system.enter(SentenceRequest(text))
        found = system.read_output()
        expect(found == expected and type(found) is type(expected), "a question about the world got another answer than the tables give",
               dialogue=history, question=step['q'], answer=found, expected=expected)
        rec.interesting(expected not in ("", "no", 0, [], "0 ksqmiles"))


APPS = {'chat80': ('TestChat80', 'test_chat80'), 'cooper': ('TestCooper', 'test_cooper'), 'sir': ('TestSIR', 'test_sir'),
        'hello_world': ('TestHelloWorld', 'test_hello_world')}
NOISE = ["blah blah", "", "is", "what what", "!", "Every"]


@st.composite
def demos(draw):
    return dict(app=draw(st.sampled_from(['chat80', 'sir', 'cooper', 'chat80', 'hello_world'])), seed=draw(st.integers(0, 10**6)),
                noise=draw(st.sampled_from([0, 0.1, 0.4])), again=draw(st.sampled_from([0, 0.2, 0.6])), order=draw(st.sampled_from(['as is', 'other', 'other'])),
                share=draw(st.sampled_from([0.3, 0.6, 1])), logger=draw(st.sampled_from([None, 'all', 'products', 'stats'])))


def capture(app):
    """the systems of a test, with the sentences and expected outputs that it would send through them"""
    import contextlib
    import importlib
    import io
    module = importlib.import_module(f"tests.integration.{app}.test")
    cls, method = APPS[app]
    found = []

    class Tester:
        def __init__(self, case, tests, system, logger, *rest):
            found.append((tests, system))

        def run(self):
            pass

    original = module.DialogTester
    module.DialogTester = Tester
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(getattr(module, cls)(method), method)()
    finally:
        module.DialogTester = original
    return found


def plan_of(case, tests, first, rnd):
    tests = list(tests)
    if case['app'] == 'sir':
        # statements keep their place, questions may be repeated
        return [t for t in tests for _ in range(2 if t[0].endswith('?') and rnd.random() < case['again'] else 1)]
    if case['app'] == 'cooper' and first:
        # the statements; what is said about salt introduces its two names
        fixed = [t for t in tests if 'salt' in t[0]]
        rest = [t for t in tests if 'salt' not in t[0]]
        if case['order'] == 'other':
            rnd.shuffle(rest)
            fixed_at = sorted(rnd.sample(range(len(tests)), len(fixed)))
            for at, t in zip(fixed_at, fixed):
                rest.insert(at, t)
            tests = rest
        return [t for t in tests for _ in range(2 if rnd.random() < case['again'] / 2 else 1)]
    if case['order'] == 'other':
        rnd.shuffle(tests)
        tests = tests[:max(1, int(len(tests) * case['share']))]
    out = []
    for t in tests:
        out.append(t)
        if rnd.random() < case['again']:
            out.append(rnd.choice(out))
    return out


def check_demos(case, rec):
    import random
    from richard.core.Logger import Logger
    from richard.entity.SentenceRequest import SentenceRequest
    rnd = random.Random(case['seed'])
    rec.label(case['app'], "order:" + case['order'])
    rec.interesting(case['order'] == 'other' or case['again'] > 0 or case['noise'] > 0)
    history = []
    for i, (tests, system) in enumerate(capture(case['app'])):
        for text, expected in plan_of(case, tests, i == 0, rnd):
            if rnd.random() < case['noise']:
                history.append(rnd.choice(NOISE))
                try:
                    system.enter(SentenceRequest(history[-1]))
                    system.read_output()
                except Exception:
                    rec.label("raised in between")
            if case['logger']:
                logger = Logger()
                logger.log_all_tests()
                if case['logger'] == 'products':
                    logger.log_products()
                elif case['logger'] == 'stats':
                    logger.log_stats()
                request = SentenceRequest(text, logger)
            else:
                request = SentenceRequest(text)
            history.append(text)
            system.enter(request)
            found = system.read_output()
            expect(found == expected, "the application no longer gives the expected answer", dialogue=history[-40:], answer=found, expected=expected)


PARTS = [Part("chat80", cases, check, quick=3000, thorough=40000, shards=16, steps=60_000_000),
         Part("demos", demos, check_demos, quick=80, thorough=2000, shards=8, steps=100_000_000)]
