#!/usr/bin/env python3
"""
Systematic small changes to the code, to find what the checks do not see.

  mutate.py make            every change to every file; keeps those that pass the tests     -> /tmp/mut/survivors.json
  mutate.py check [FILTER]  runs the checks of the file that was changed on each of these   -> /tmp/mut/results.json

Works on copies under /tmp/mut.
"""
import ast, copy, json, os, shutil, subprocess, sys, threading, queue, random, time, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
CHECKS = {
 "earley": "C01 C02 C03", "BasicParser": "C01 C02 C03 C04", "entity/Grammar": "C03 C01 C16", "RuleConstituent": "C01 C03", "ParseTreeNode": "C01 C26",
 "SimpleGrammarRulesParser": "C03 C16 C27 C04", "tree_sort": "C04", "SemanticComposer": "C05 C14 C27 C26", "VariableGenerator": "C05", "grammar_functions": "C06",
 "core/Solver": "C07 C27 C28 C08 C26 C11", "CoreModule": "C08 C09 C28 C27 C11", "InferenceModule": "C10 C27 C12 C11", "GrammarModule": "C11", "SimpleInferenceRuleParser": "C12",
 "InferenceRule": "C10 C12 C26", "optimizer": "C13 C27 C26", "atoms": "C26 C13 C11 C10", "AtomExecutor": "C14 C26", "block/": "C15", "core/System": "C15 C24 C02", "SentenceRequest": "C15 C23 C26",
 "BasicGenerator": "C16 C24", "BasicOutputBuffer": "C16 C02", "en_us": "C02", "data_source/Sparql": "C19", "Wikidata": "C19", "CsvImporter": "C18", "data_source": "C17 C27",
 "SimpleMemory": "C20 C11", "BasicDialogContext": "C20 C11", "language_selector": "C23 C26", "OrderedSet": "C25 C01", "ResultIterator": "C25", "Logger": "C26", "DialogTester": "C29 C26",
 "entity/Relation": "C27 C11 C13", "core/Model": "C07 C11", "SomeModule": "C07 C11",
}


def checks_for(path):
    for k, v in CHECKS.items():
        if k in path:
            return v.split()
    return ["C21", "C26"]


class Mutator:
    """yields (description, tree)"""
    def __init__(self, source):
        self.tree = ast.parse(source)

    def variants(self):
        nodes = list(ast.walk(self.tree))
        for n, node in enumerate(nodes):
            for i, change in enumerate(self.changes(node)):
                t = copy.deepcopy(self.tree)
                target = list(ast.walk(t))[n]
                desc = list(self.changes(target))[i]
                text = desc[1]()
                yield getattr(node, "lineno", 0), desc[0], t

    def changes(self, node):
        def setter(obj, name, value):
            return lambda: setattr(obj, name, value)
        if isinstance(node, ast.Compare):
            swap = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.Gt: [ast.GtE, ast.LtE], ast.LtE: [ast.Lt, ast.Gt], ast.GtE: [ast.Gt, ast.Lt],
                    ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for new in swap.get(type(node.ops[0]), []):
                yield f"{ast.unparse(node)} => {new.__name__}", setter(node, "ops", [new()])
            if isinstance(node.ops[0], ast.IsNot) and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                def truthy(node=node):
                    node.ops, node.comparators = [ast.NotIn()], [ast.parse("(None, 0, '', False)", mode="eval").body]
                yield f"{ast.unparse(node)} => truthy", truthy
        if isinstance(node, ast.BoolOp):
            yield f"{ast.unparse(node)} => and/or", setter(node, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And())
            for k in range(len(node.values)):
                yield f"{ast.unparse(node)} => without {k}", setter(node, "values", [v for i, v in enumerate(node.values) if i != k] + ([ast.Constant(isinstance(node.op, ast.And))] if len(node.values) == 2 else []))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield f"{ast.unparse(node)} => no not", setter(node, "op", ast.UAdd() if False else ast.Not()) if False else setter(node, "operand", ast.UnaryOp(ast.Not(), node.operand))
        if isinstance(node, ast.Constant) and type(node.value) is int:
            yield f"{node.value} => +1", setter(node, "value", node.value + 1)
            yield f"{node.value} => -1", setter(node, "value", node.value - 1)
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            yield f"{node.value} => negated", setter(node, "value", not node.value)
        if isinstance(node, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Mult: ast.Add, ast.Div: ast.FloorDiv}
            if type(node.op) in swap:
                yield f"{ast.unparse(node)} => {swap[type(node.op)].__name__}", setter(node, "op", swap[type(node.op)]())
            if isinstance(node.op, ast.Add):
                def left(node=node):
                    node.right = ast.parse("type(%s)()" % ast.unparse(node.right), mode="eval").body
                yield f"{ast.unparse(node)} => left only", left
        if isinstance(node, (ast.If, ast.IfExp)):
            yield f"if {ast.unparse(node.test)} => True", setter(node, "test", ast.Constant(True))
            yield f"if {ast.unparse(node.test)} => False", setter(node, "test", ast.Constant(False))
        if isinstance(node, (ast.For, ast.comprehension)):
            old = ast.unparse(node.iter)
            for k in ("[1:]", "[:-1]", "[::-1]"):
                yield f"for in {old} => {k}", setter(node, "iter", ast.parse(f"list({old}){k}", mode="eval").body)
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                def nocopy(node=node):
                    node.func, node.args = ast.Name("iter_", ast.Load()), []
                yield f"{ast.unparse(node)} => no copy", lambda node=node: (setattr(node, "args", [node.func.value]), setattr(node, "func", ast.parse("(lambda x: x)", mode="eval").body))
            if isinstance(node.func, ast.Name) and node.func.id in ("list", "set", "dict", "str") and len(node.args) == 1:
                yield f"{ast.unparse(node)} => no {node.func.id}", setter(node, "func", ast.parse("(lambda x: x)", mode="eval").body)
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                yield f"{ast.unparse(node)} => no lower", setter(node, "lower", None)
            if node.upper is not None:
                yield f"{ast.unparse(node)} => no upper", setter(node, "upper", None)
        if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
            v = node.value
            if isinstance(v, ast.List) and v.elts:
                yield f"return {ast.unparse(v)} => []", setter(node, "value", ast.parse("[]", mode="eval").body)
            elif isinstance(v, ast.Name):
                yield f"return {ast.unparse(v)} => shallow", setter(node, "value", ast.parse(f"{v.id}[:1] if isinstance({v.id}, list) else {v.id}", mode="eval").body)
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list):
                for k, s in enumerate(stmts):
                    if isinstance(s, (ast.Break, ast.Continue)):
                        other = ast.Continue() if isinstance(s, ast.Break) else ast.Break()
                        yield f"line {s.lineno} {ast.unparse(s)} => other", (lambda stmts=stmts, k=k, other=other: stmts.__setitem__(k, other))
                    ok = isinstance(s, (ast.AugAssign, ast.Break, ast.Continue, ast.Raise)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) or \
                        (isinstance(s, ast.Assign) and not isinstance(node, (ast.Module, ast.ClassDef)))
                    if ok:
                        yield f"line {s.lineno} drop: {ast.unparse(s)[:90]}", (lambda stmts=stmts, k=k: stmts.__setitem__(k, ast.Pass()))


def fresh(n):
    tree = f"{ROOT}/w{n}"
    if os.path.isdir(tree):
        shutil.rmtree(tree)
    shutil.copytree("/repo", tree, symlinks=True)
    return tree


def tests_pass(tree, deselect):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONPATH=tree, PYTHONHASHSEED="0")
    cmd = ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "--rootdir=" + tree, "--import-mode=importlib",
           "-o", "python_files=*_test.py test.py test_*.py", "-W", "ignore", "tests"] + ["--deselect=" + d for d in deselect]
    try:
        r = subprocess.run(cmd, cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def pool(jobs, worker, n):
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    out, lock = [], threading.Lock()

    def run(i):
        tree = fresh(i)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            r = worker(tree, j)
            with lock:
                out.append(r)
                if len(out) % 50 == 0:
                    print(len(out), "of", len(jobs), time.strftime("%H:%M:%S"), flush=True)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for i in range(n):
        shutil.rmtree(f"{ROOT}/w{i}", ignore_errors=True)
    return out


def make():
    jobs, seen = [], set()
    for path in sorted(glob.glob("/repo/richard/**/*.py", recursive=True)):
        rel = path[len("/repo/"):]
        source = open(path).read()
        plain = ast.unparse(ast.parse(source))
        for line, desc, tree in Mutator(source).variants():
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                continue
            if text == plain or (rel, text) in seen:
                continue
            seen.add((rel, text))
            jobs.append(dict(file=rel, line=line, what=desc, text=text))
    print(len(jobs), "changes", flush=True)

    def worker(tree, j):
        target = os.path.join(tree, j["file"])
        keep = open(target).read()
        open(target, "w").write(j["text"])
        ok = tests_pass(tree, [])
        open(target, "w").write(keep)
        return j if ok else None
    out = [j for j in pool(jobs, worker, 9) if j]
    out.sort(key=lambda j: (j["file"], j["line"], j["what"]))
    json.dump(out, open(ROOT + "/survivors.json", "w"), indent=0)
    print(len(out), "pass the tests")


def check(filters):
    jobs = json.load(open(ROOT + "/survivors.json"))
    if filters:
        jobs = [j for j in jobs if any(f in j["file"] for f in filters)]
    done = {}
    if os.path.exists(ROOT + "/results.json"):
        done = {(r["file"], r["text"]): r for r in json.load(open(ROOT + "/results.json"))}
    if not filters:
        jobs = [j for j in jobs if (j["file"], j["text"]) not in done]
    # in random order, so that stopping early leaves a fair sample
    random.Random(7).shuffle(jobs)
    print(len(jobs), "to check", flush=True)

    def worker(tree, j):
        target = os.path.join(tree, j["file"])
        keep = open(target).read()
        open(target, "w").write(j["text"])
        j["caught"] = None
        for c in checks_for(j["file"]):
            if not os.path.exists(f"{VERIF}/props/{c.lower()}.py"):
                continue
            r = subprocess.run(["python3", VERIF + "/check.py", c, "--jobs", "3"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                               env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick", VERIF_FIRST="1"))
            if r.returncode:
                j["caught"] = c if r.returncode == 1 else c + "?"
                break
        open(target, "w").write(keep)
        if not j["caught"]:
            print("MISSED", j["file"], j["line"], j["what"], flush=True)
        done[(j["file"], j["text"])] = j
        if len(done) % 10 == 0:
            json.dump(list(done.values()), open(ROOT + "/results.json", "w"), indent=0)
        return j
    pool(jobs, worker, 3)
    json.dump(list(done.values()), open(ROOT + "/results.json", "w"), indent=0)


if __name__ == "__main__":
    os.makedirs(ROOT, exist_ok=True)
    make() if sys.argv[1] == "make" else check(sys.argv[2:])
