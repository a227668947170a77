"""C22: results are repeatable across runs and processes."""
import importlib
import json
import os
import select
import subprocess
import sys

from hypothesis import strategies as st

from vlib.case import REPO, VERIF, fail
from vlib.runner import Part

RULE = ("Cases of the other checks (grammars and sentences, compositions, solving, inference, optimisation, learning dialogues, control "
        "blocks, generated output, contexts, data sources, English questions) are run in three processes with different string-hash "
        "seeds and histories, and twice in each; everything that the parser (trees, errors), composer (meanings, facts, commands), optimiser, executor, "
        "solver, rule parser, data sources, System and output generator gave back or raised is written down in order, and all "
        "transcripts must be equal. Non-trivial: the transcript has a list of two or more trees, bindings or rows.")
ASSUMPTIONS = ["only what the public entry points return or raise counts, not the order of keys within one binding"]

SEEDS = (1, 2, 777)
SOURCES = [('C01', 'derivations'), ('C02', 'dialog'), ('C04', 'parser'), ('C05', 'renaming'), ('C07', 'join'), ('C08', 'nested'), ('C09', 'aggregate'),
           ('C10', 'entailment'), ('C11', 'history'), ('C11', 'grammar'), ('C11', 'dialog'), ('C12', 'round trip'), ('C13', 'equivalence'),
           ('C14', 'events'), ('C14', 'readings'), ('C16', 'grammars'), ('C17', 'histories'), ('C20', 'histories'),
           ('C21', 'questions')]
WEIGHTED = SOURCES + [('C13', 'equivalence'), ('C14', 'readings'), ('C21', 'questions'), ('C11', 'dialog'), ('C16', 'grammars')]


def part_of(prop, name):
    return next(p for p in importlib.import_module("props." + prop.lower()).PARTS if p.name == name)


@st.composite
def cases(draw):
    prop, name = draw(st.sampled_from(WEIGHTED))
    return dict(prop=prop, part=name, case=draw(part_of(prop, name).strategy()))


class Server:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=VERIF + os.pathsep + REPO, VERIF_REPO=REPO)
        self.process = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "vlib.transcript"], stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=VERIF)

    def send(self, case, times):
        self.process.stdin.write((json.dumps([case['prop'], case['part'], repr(case['case']), times]) + "\n").encode())
        self.process.stdin.flush()

    def receive(self):
        ready, _, _ = select.select([self.process.stdout], [], [], 400)
        line = self.process.stdout.readline() if ready else b""
        if not line:
            self.process.kill()
            raise RuntimeError("the process that runs the case gave no answer")
        return json.loads(line)


SERVERS = {}
PREVIOUS = {}


def servers():
    if os.getpid() not in SERVERS:
        SERVERS.clear()
        SERVERS[os.getpid()] = [Server(s) for s in SEEDS]
        PREVIOUS.clear()
    return SERVERS[os.getpid()]


def check(case, rec):
    processes = servers()
    # the last process has another history
    previous = PREVIOUS.get('case')
    PREVIOUS['case'] = case
    if previous is not None:
        processes[-1].send(previous, 1)
        processes[-1].receive()
    for p in processes:
        p.send(case, 2)
    answers = [p.receive() for p in processes]
    first = answers[0][0]
    for seed, pair in zip(SEEDS, answers):
        for number, transcript in enumerate(pair):
            if transcript == first:
                continue
            at = next((i for i, (a, b) in enumerate(zip(first, transcript)) if a != b), min(len(first), len(transcript)))
            fail("the same program gave different results", compared=f"hash seed {SEEDS[0]} run 1, and hash seed {seed} run {number + 1}",
                 entry=at, first=first[at] if at < len(first) else None, other=transcript[at] if at < len(transcript) else None)
    rec.label(case['prop'] + ' ' + case['part'])
    rec.label('ends: ' + first[-1])
    rec.interesting(any("}, {" in e or "}, s" in e or "], [" in e for e in first))


PARTS = [Part("transcripts", cases, check, quick=4000, thorough=100000)]
