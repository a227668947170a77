#!/usr/bin/env python3
"""
Plants bugs:   mkbug.py SPEC.py [ID ...]     SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
               mkbug.py --recheck [ID ...]   runs the check of every planted bug again
Every bug is applied to a scratch copy of /repo, the tests and the demonstration are run there, then the check of its
property against that copy. Bugs that do not qualify are not kept.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, difflib, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it does not
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired as x:
        class R: returncode = 124; stdout = "timeout"
        return R


def tests(tree, out):
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + tree).replace("PYTHONPATH=/repo", "PYTHONPATH=" + tree).replace("--rootdir=/repo", "--rootdir=" + tree)
    r = sh(["bash", "-c", script, "test.sh", out], tree)
    try:
        data = json.load(open(out))
    except Exception:
        return False, r.stdout[-1500:]
    return data, r.stdout[-1500:]


def failing(data):
    text = json.dumps(data)
    return data


def check(prop, tree, seeds=(1,)):
    res = []
    for s in seeds:
        t = time.time()
        r = sh(["python3", os.path.join(VERIF, "check.py"), prop], VERIF, dict(VERIF_REPO=tree, VERIF_SEED=str(s), VERIF_TIER="quick"))
        res.append((r.returncode, round(time.time() - t, 1), r.stdout))
    return res


def main():
    args = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    try:
        if args[0] == "--recheck":
            ids = args[1:] or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d)))
            for i in ids:
                d = os.path.join(SEEDED, i)
                tree = os.path.join(tmp, i)
                shutil.copytree("/repo", tree, symlinks=True)
                a = sh(["git", "apply", os.path.join(d, "patch.diff")], tree)
                if a.returncode:
                    print(i, "PATCH DOES NOT APPLY", a.stdout); continue
                d0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo").returncode
                d1 = sh(["bash", os.path.join(d, "demo.sh")], tree).returncode
                meta = json.load(open(os.path.join(d, "meta.json")))
                (rc, secs, out), = check(meta["property"], tree)
                caught = rc == 1 and f"VIOLATION property={meta['property']}" in out
                print(f"{i:40} {meta['property']} demo {d0}/{d1} {'CAUGHT' if caught else 'MISSED rc=%d' % rc} {secs}s", flush=True)
                shutil.rmtree(tree)
            return
        spec = runpy.run_path(args[0])["BUGS"]
        for b in spec:
            if len(args) > 1 and b["id"] not in args[1:]:
                continue
            tree = os.path.join(tmp, b["id"])
            shutil.copytree("/repo", tree, symlinks=True)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(tree, f)
                text = open(p).read()
                if text.count(old) != 1:
                    print(b["id"], "EDIT matches", text.count(old), "times:", f, repr(old)[:80]); ok = False; break
                open(p, "w").write(text.replace(old, new))
            if not ok:
                continue
            diff = sh(["git", "diff"], tree).stdout
            d = os.path.join(SEEDED, b["id"])
            fresh = not os.path.exists(d)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            data, log = tests(tree, os.path.join(tmp, "out.json"))
            base_pass = set(BASE.get("passed") or BASE.get("stable") or BASE.get("tests") or [])
            passed = set((data or {}).get("passed", []))
            r0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
            r1 = sh(["bash", os.path.join(d, "demo.sh")], tree)
            good = bool(data) and base_pass and base_pass <= passed and r0.returncode == 0 and r1.returncode != 0
            if not good:
                print(b["id"], "NOT A GOOD BUG: tests missing", sorted(base_pass - passed)[:5], "demo", r0.returncode, r1.returncode)
                print(r0.stdout[-800:] if r0.returncode else r1.stdout[-300:])
                shutil.rmtree(d); continue
            (rc, secs, out), = check(b["property"], tree)
            caught = rc == 1 and f"VIOLATION property={b['property']}" in out
            print(f"{b['id']:40} {b['property']} {'CAUGHT' if caught else 'MISSED rc=%d' % rc} {secs}s   demo: {r1.stdout.strip().splitlines()[-1][:100] if r1.stdout.strip() else ''}", flush=True)
            if rc == 2:
                print(out[-1500:])
            shutil.rmtree(tree)
    finally:
        shutil.rmtree(tmp)


main()
