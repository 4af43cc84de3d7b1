#!/usr/bin/env python3
"""Development only: confirms a planted bug in a scratch copy and runs checks against it.

    try_bug.py ID [CHECK...]     confirms seeded/ID and runs the check of its property (and others given)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

def run(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", **env)
    e.pop("VERIF_CHILD", None)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)

def main(bug, checks):
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        files = os.path.join(tmp, "demo"); os.mkdir(files)
        for f in os.listdir(d):
            if f != "meta.json" and not f.endswith((".diff", ".patch")):
                shutil.copy(os.path.join(d, f), files)
        demo = ["bash", os.path.join(files, "demo.sh")]
        a = run(demo, copy)
        p = run(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if p.returncode:
            print(bug, "PATCH DOES NOT APPLY", p.stderr); return
        b = run(demo, copy)
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], copy, PYTHONPATH=os.path.join(copy, "src"))
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(f"{bug} [{meta['property']}] demo clean={a.returncode} patched={b.returncode} tests={t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-300:]} {'CONFIRMED' if ok else 'NOT VALID'}")
        if a.returncode: print("   clean demo:", (a.stdout + a.stderr)[-600:])
        if not ok: print("   patched demo:", (b.stdout + b.stderr)[-400:]); print(t.stdout[-800:] if t.returncode else "")
        for c in [meta["property"], *checks]:
            r = run([os.path.join(HERE, "run.py"), c], HERE, VERIF_REPO=copy)
            print(f"   {c}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'NO ANSWER'}: {(r.stdout + r.stderr).strip().splitlines()[0][:220] if r.stdout or r.stderr else ''}")
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    ids = sys.argv[1:]
    if ids == ["--all"]:
        ids = sorted(os.listdir(os.path.join(HERE, "seeded")))
        for i in ids: main(i, [])
    else:
        main(ids[0], ids[1:])
