"""Runs the check of its property on every planted bug (seeded/*) and rewrites the table in DESIGN.md.

usage: catches.py [--only ID ...] [--procs N]     (results are kept in tools/catches.json; a development tool, no check uses it)"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(V, "tools", "catches.json")
BEGIN, END = "<!-- catches -->", "<!-- /catches -->"


def one(bug, props=None):
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        repo, ver = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        r = subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return bug, {"property": meta["property"], "result": "patch does not apply"}
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        env = dict(os.environ, RFCHECK_REPO=repo, RFCHECK_SHRINK="5", RFCHECK_PROCS="4")
        r = subprocess.run(["/opt/venv/bin/python", "run.py", meta["property"], "quick"], cwd=ver, env=env, capture_output=True, text=True)
        subs = re.findall(r"VIOLATION property=\S+ replay=\S*/C\d+-(\S+)\.json", r.stdout)
        return bug, {"property": meta["property"], "result": {0: "missed", 1: "caught"}.get(r.returncode, "error"), "by": sorted(subs)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def table(res):
    out = ["| planted bug | property | needs | caught by sub-checks |", "|---|---|---|---|"]
    for b in sorted(res):
        p = os.path.join(V, "seeded", b, "meta.json")
        if os.path.exists(p):
            m, r = json.load(open(p)), res[b]
            note = r.get("note", "")
            out.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {', '.join(r['by']) if r['result'] == 'caught' else r['result'].upper()}{'; ' + note if note else ''} |")
    f = os.path.join(V, "DESIGN.md")
    s = open(f).read()
    a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
    open(f, "w").write(s[:a] + "\n" + "\n".join(out) + "\n" + s[b:])


def main():
    a = sys.argv[1:]
    n = int(a[a.index("--procs") + 1]) if "--procs" in a else 2
    res = json.load(open(STORE)) if os.path.exists(STORE) else {}
    ids = a[a.index("--only") + 1:] if "--only" in a else sorted(os.listdir(os.path.join(V, "seeded")))
    if "--table" not in a:
        with ThreadPoolExecutor(n) as ex:
            for b, r in ex.map(one, ids):
                note = res.get(b, {}).get("note")
                res[b] = r | ({"note": note} if note else {})
                print(b, r["result"], *r.get("by", []), flush=True)
        res = {b: r for b, r in res.items() if os.path.isdir(os.path.join(V, "seeded", b))}
        json.dump(res, open(STORE, "w"), indent=1, sort_keys=True)
    table(res)


main()
