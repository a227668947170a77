"""
The Chat-80 application of the repository over any world: builds the system around CSV files, renders abstract questions as English
sentences, and evaluates them with sets that are read from the same tables (nothing of the library is used for that).

A noun phrase denotes {entity: set of witnesses}, where a witness is the tuple of the other things that were found on the way;
the determiners that count, count entities together with their witnesses, as the grammar of the application prescribes.
"""
import csv
import importlib
import os
import shutil
import tempfile

from vlib.case import REPO

COLUMNS = {
    'continent': ['id'], 'ocean': ['id'], 'sea': ['id'], 'river': ['id', 'flows_through'], 'city': ['id', 'country', 'population'],
    'country': ['id', 'region', 'lat', 'long', 'area_div_1000', 'area_mod_1000', 'population', 'population_mod_1000000_div_1000',
                'capital', 'currency'],
    'contains': ['whole', 'part'], 'borders': ['country_id1', 'country_id2'],
}
TYPES = ["country", "city", "sea", "river", "ocean", "continent"]
REGIONS = {
    "european": ['southern_europe', 'western_europe', 'eastern_europe', 'scandinavia'],
    "asian": ['middle_east', 'indian_subcontinent', 'southeast_east', 'far_east', 'northern_asia'],
    "american": ['north_america', 'central_america', 'caribbean', 'south_america'],
    "african": ['north_africa', 'west_africa', 'central_africa', 'east_africa', 'southern_africa'],
}
NUMBERS = {1: 'one', 2: 'two', 3: 'three', 4: 'four', 5: 'five', 10: 'ten'}
PLURAL = {'river': 'rivers', 'country': 'countries', 'ocean': 'oceans', 'sea': 'seas', 'city': 'cities', 'continent': 'continents',
          'capital': 'capitals'}


def real_tables():
    """the tables of the repository, read with the csv module"""
    out = {}
    for name, columns in COLUMNS.items():
        with open(os.path.join(REPO, "tests", "integration", "chat80", "resources", name + ".csv"), newline='') as f:
            rows = list(csv.reader(f))
        header = rows[0]
        out[name] = [dict(zip(header, r)) for r in rows[1:] if r]
    return out


class Tie(Exception):
    """more than one thing is the largest; the answer may be about any of them"""


class Unanswerable(Exception):
    """outside of what the application can answer (it may raise)"""


class World:
    def __init__(self, tables):
        self.tables = tables
        self.ids = {t: {r['id'] for r in tables[t]} for t in TYPES}
        self.ids['capital'] = {r['capital'] for r in tables['country']}
        self.borders = {(r['country_id1'], r['country_id2']) for r in tables['borders']}
        self.borders |= {(b, a) for a, b in self.borders}
        self.contains = {(r['whole'], r['part']) for r in tables['contains']}
        self.inside = {(b, a) for a, b in self.contains}
        while True:
            more = {(a, c) for a, b in self.inside for d, c in self.inside if b == d} - self.inside
            if not more:
                break
            self.inside |= more
        self.country = {r['id']: r for r in tables['country']}
        self.city = {r['id']: int(r['population']) * 1000 for r in tables['city']}
        self.flows = set()
        for r in tables['river']:
            parts = r['flows_through'].split('|')
            for source in parts[1:2]:
                self.flows.add((r['id'], source, parts[0]))

    def kind(self, name):
        return next((t for t in TYPES if name in self.ids[t]), None)

    def size(self, e):
        value = self.country[e]['area_div_1000'] if e in self.country else None
        return int(value) if value not in (None, '') else None

    def population(self, e, kind):
        if kind == 'city':
            return self.city.get(e)
        value = self.country[e]['population'] if e in self.country else None
        return int(value) * 1000000 if value not in (None, '') else None

    def latitude(self, e):
        return 0.0 if e == 'equator' else float(self.country[e]['lat'])

    # ------------------------------------------------------------ phrases

    def nbar(self, nb):
        """('nbar', noun, adjectives, superlative, post); noun is a type, plural or not"""
        _, noun, plural, adjectives, superlative, post = nb
        found = {e: {()} for e in self.ids[noun]}
        for a in adjectives:
            found = {e: w for e, w in found.items() if e in self.country and self.country[e]['region'] in REGIONS[a]}
        if superlative:
            sizes = {e: self.size(e) for e in found if self.size(e) is not None}
            if not sizes:
                return {}
            best = (max if superlative == 'largest' else min)(sizes.values())
            winners = [e for e in sizes if sizes[e] == best]
            if len(winners) > 1:
                raise Tie()
            found = {winners[0]: {()}}
        if post:
            # what the application knows about the type of the noun: the plural of capital is not known to be a city
            kind = 'city' if noun == 'city' or (noun == 'capital' and not plural) else noun
            found = {e: {w + s for w in ws for s in self.post(post, e, kind)} for e, ws in found.items()}
        return {e: w for e, w in found.items() if w}

    def np(self, np, scope=None):
        """the set of witnesses of np(scope); scope: entity -> set of witnesses"""
        scope = scope or (lambda e: {()})
        if np[0] == 'name':
            return {(np[1],) + s for s in scope(np[1])}
        if np[0] == 'number':
            return scope(np[1])
        if np[0] == 'population':
            value = self.population(np[1], self.kind(np[1]))
            return {(value,) + s for s in scope(value)} if value is not None else set()
        found = {(e,) + w + s for e, ws in self.nbar(np[2]).items() for s in scope(e) for w in ws}
        det = np[1]
        if det == 'no':
            return set() if found else {()}
        if isinstance(det, int):
            return {()} if len(found) == det else set()
        if isinstance(det, tuple):
            return {()} if len(found) > det[1] else set()
        return found

    def test(self, condition):
        return {()} if condition else set()

    def vp(self, vp, e, kind=None):
        name = vp[0]
        if name == 'borders':
            return self.np(vp[1], lambda x: self.test((e, x) in self.borders))
        if name == 'contains':
            return self.np(vp[1], lambda x: self.test((e, x) in self.contains))
        if name == 'flows':
            return self.np(vp[1], lambda x: self.test((x, e) in self.contains))
        if name == 'bordered':
            return self.np(vp[1], lambda x: self.test((x, e) in self.borders))
        if name == 'flown':
            return self.np(vp[1], lambda x: self.test((e, x) in self.contains))
        if name == 'contained':
            return self.np(vp[1], lambda x: self.test((x, e) in self.contains))
        if name == 'not':
            return self.test(not self.vp(vp[1], e, kind))
        if name == 'population':
            p = self.population(e, kind)
            if p is None:
                return set()
            return {(p,) + w for w in self.np(vp[1], lambda n: self.test(p > n))}
        raise AssertionError(vp)

    def post(self, post, e, kind):
        name = post[0]
        if name == 'in':
            return self.np(post[1], lambda x: self.test((e, x) in self.inside))
        if name == 'of':
            return self.np(post[1], lambda x: self.test(x in self.country and self.country[x]['capital'] == e))
        if name == 'south':
            return {(post[1],)} if e in self.country and self.latitude(e) < self.latitude(post[1]) else set()
        if name == 'not':
            return self.test(not self.post(post[1], e, kind))
        if name in ('and', 'and that'):
            return {a + b for a in self.post(post[1], e, kind) for b in self.post(post[2], e, kind)}
        return self.vp(post[1], e, kind)

    # ------------------------------------------------------------ questions

    def answer(self, q):
        kind = q[0]
        listed = lambda items: ", ".join(sorted(set(items)))
        yes = lambda truth: "yes" if truth else "no"
        if kind in ('there', 'which adj', 'which post', 'what there'):
            return listed(self.nbar(q[1]))
        if kind == 'what is':
            return listed(w[0] for w in self.np(q[1]))
        if kind == 'which vp':
            # the noun phrase has no determiner
            return listed(w[0] for w in self.np(q[1], lambda e: self.vp(q[2], e, q[1][2][1])))
        if kind == 'does':
            # what kind of thing a subject is, is known if it is a noun
            return yes(self.np(q[1], lambda e: self.vp(q[2], e, None)))
        if kind == 'is there':
            return yes(self.np(q[1]))
        if kind == 'is there each':
            places = self.nbar(q[2])
            return yes(places and all(self.np(q[1], lambda x: self.test((x, e) in self.inside)) for e in places))
        if kind == 'where':
            return listed(self.country[w[0]]['region'] for w in self.np(q[1], lambda e: self.test(e in self.country)))
        if kind == 'how large':
            sizes = {self.size(w[0]) for w in self.np(q[1], lambda e: self.test(self.size(e) is not None))}
            if len(sizes) != 1:
                raise Unanswerable()
            return f"{sizes.pop()} ksqmiles"
        if kind == 'capital is':
            return listed(e for e in self.nbar(q[1]) if self.country.get(e, {}).get('capital') == q[2])
        if kind == 'how many':
            return sum(len(w) for e, ws in self.nbar(q[1]).items() for w in [{a + b for a in ws for b in self.vp(q[2], e, None)}])
        if kind == 'capitals':
            rows = {(w[0], self.country[w[0]]['capital']) for w in self.np(q[1]) if w[0] in self.country}
            return [list(r) for r in sorted(rows)]
        if kind == 'from which':
            return listed(w[0] for w in self.np(q[1], lambda e: self.np(q[2], lambda r: self.np(q[3], lambda s: self.test((r, e, s) in self.flows)))))
        if kind == 'total':
            found = self.np(q[1], lambda e: self.test(self.size(e) is not None))
            return f"{sum(self.size(w[0]) for w in found)} ksqmiles"
        if kind == 'average':
            rows = []
            for e in self.nbar(q[2]):
                sizes = [self.size(w[0]) for w in self.np(q[1], lambda x: self.test((x, e) in self.inside and self.size(x) is not None))]
                if sizes:
                    rows.append([e, f"{int(sum(sizes) / len(sizes))} ksqmiles"])
            return sorted(rows)
        if kind == 'percentage':
            rows = []
            total = len(self.np(q[1]))
            if total:
                for e in self.nbar(q[3]):
                    part = len(self.np(q[1], lambda x: self.vp((q[2], ('name', e)), x, None)))
                    rows.append([e, str(int(100 * part / total))])
            return sorted(rows)
        raise AssertionError(q)


# ---------------------------------------------------------------- English

def number(n):
    if n >= 1000000:
        return number(n // 1000000) + " million"
    return NUMBERS.get(n, str(n)) if n % 2 or n < 3 else str(n)


def say_nbar(nb):
    _, noun, plural, adjectives, superlative, post = nb
    words = ([superlative] if superlative else []) + list(adjectives) + [PLURAL[noun] if plural else noun]
    return " ".join(words) + (" " + say_post(post) if post else "")


def say_np(np):
    if np[0] == 'name':
        return ("the " if np[2:] == ('the',) else "") + np[1]
    if np[0] == 'number':
        return number(np[1])
    if np[0] == 'population':
        return f"the population of {np[1]}"
    det = np[1]
    if isinstance(det, int):
        det = number(det)
    elif isinstance(det, tuple):
        det = "more than " + number(det[1])
    return (det + " " if det else "") + say_nbar(np[2])


def say_vp(vp, plural):
    name = vp[0]
    if name == 'borders':
        return ("border " if plural else "borders ") + say_np(vp[1])
    if name == 'contains':
        return "contains " + say_np(vp[1])
    if name == 'flows':
        return "flow through " + say_np(vp[1])
    if name == 'not':
        return "does not " + say_vp(vp[1], True)
    if name == 'population':
        return "have a population exceeding " + say_np(vp[1])
    if name == 'bordered':
        return "bordered by " + say_np(vp[1])
    if name == 'flown':
        return "does " + say_np(vp[1]) + " flow through"
    if name == 'contained':
        return "does " + say_np(vp[1]) + " contains"
    raise AssertionError(vp)


def say_post(post):
    name = post[0]
    if name in ('in', 'of'):
        return name + " " + say_np(post[1])
    if name == 'south':
        return "south of " + ("the " if post[1] == 'equator' else "") + post[1]
    if name == 'not':
        return "not " + say_post(post[1])
    if name == 'and':
        return say_post(post[1]) + " and " + say_post(post[2])
    if name == 'and that':
        return say_post(post[1]) + " and " + say_post(post[2])
    if name == 'that':
        vp = post[1]
        return "that " + ("is " + say_vp(vp, False) if vp[0] == 'bordered' else say_vp(vp, False))
    if name == 'ing':
        return "bordering " + say_np(post[1][1])
    if name == 'whose':
        return "whose population exceeds " + say_np(post[1][1])
    if name == 'with':
        return "with a population exceeding " + say_np(post[1][1])
    raise AssertionError(post)


def say(q):
    kind = q[0]
    if kind == 'there':
        return f"What {say_nbar(q[1])} are there?"
    if kind == 'what there':
        return f"What {say_nbar(q[1][:5] + (None,))} are there {say_post(q[1][5])}?"
    if kind == 'which adj':
        nb = q[1]
        return f"Which {say_nbar(nb[:3] + ((),) + nb[4:])} are {nb[3][0]}?"
    if kind == 'which post':
        return f"Which {say_nbar(q[1][:5] + (None,))} are {say_vp(q[1][5][1], False)}?"
    if kind == 'what is':
        return f"{q[2]} {say_np(q[1])}?"
    if kind == 'which vp':
        return f"Which {say_np(q[1])} {say_vp(q[2], q[1][2][2])}?"
    if kind == 'does':
        return f"Does {say_np(q[1])} {say_vp(q[2], True)}?"
    if kind == 'is there':
        return f"Is there {say_np(q[1])}?"
    if kind == 'is there each':
        return f"Is there {say_np(q[1])} in each {say_nbar(q[2])}?"
    if kind == 'where':
        return f"Where is {say_np(q[1])}?"
    if kind == 'how large':
        return f"How large is {say_np(q[1])}?"
    if kind == 'capital is':
        return f"Which {say_nbar(q[1])}'s capital is {q[2]}?"
    if kind == 'how many':
        return f"How many {say_nbar(q[1])} {say_vp(q[2], True)}?"
    if kind == 'capitals':
        return f"What are the capitals of {say_np(q[1])}?"
    if kind == 'from which':
        return f"What are {say_np(q[1])} from which {say_np(q[2])} flows into {say_np(q[3])}?"
    if kind == 'total':
        return f"What is the total area of {say_np(q[1])}?"
    if kind == 'average':
        return f"What is the average area of {say_np(q[1])} in each {say_nbar(q[2])}?"
    if kind == 'percentage':
        verb = {'borders': 'border', 'contains': 'contains', 'flows': 'flow through'}[q[2]]
        return f"What percentage of {say_np(q[1])} {verb} each {say_nbar(q[3])}?"
    raise AssertionError(q)


# ---------------------------------------------------------------- the application

def build(tables=None, optimise=True, parser_class=None):
    """the system of the repository's Chat-80 test; tables: {name: [rows]} or None for those of the repository"""
    import pathlib
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.grammar.en_us_write import get_en_us_write_grammar
    from richard.module.BasicDialogContext import BasicDialogContext
    from richard.module.BasicOutputBuffer import BasicOutputBuffer
    from richard.module.InferenceModule import InferenceModule
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
    app = "tests.integration.chat80."
    db_module = importlib.import_module(app + "Chat80DB")
    if tables is None:
        db = db_module.Chat80DB()
    else:
        folder = tempfile.mkdtemp(prefix="chat80-")
        try:
            os.mkdir(os.path.join(folder, "resources"))
            for name, columns in COLUMNS.items():
                with open(os.path.join(folder, "resources", name + ".csv"), "w", newline='') as f:
                    writer = csv.writer(f)
                    writer.writerow(columns)
                    for row in tables[name]:
                        writer.writerow([row.get(c, '') for c in columns])
            original = db_module.__file__
            db_module.__file__ = os.path.join(folder, "Chat80DB.py")
            try:
                db = db_module.Chat80DB()
            finally:
                db_module.__file__ = original
        finally:
            shutil.rmtree(folder)
    facts = importlib.import_module(app + "Chat80Module").Chat80Module(db)
    path = os.path.join(REPO, "tests", "integration", "chat80") + os.sep
    inferences = InferenceModule()
    inferences.import_rules(path + "inferences.pl")
    inferences.import_rules(path + "intents.pl")
    output_buffer = BasicOutputBuffer()
    model = Model([facts, inferences, output_buffer, BasicDialogContext()])
    read = importlib.import_module(app + "read_grammar").get_read_grammar()
    write = importlib.import_module(app + "write_grammar").get_write_grammar()
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(read))
    composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model)) if optimise else SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    generator = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar() + write), model, output_buffer)
    return System(model=model, input_pipeline=[FindOne(parser), TryFirst(composer), TryFirst(executor)], output_generator=generator)
