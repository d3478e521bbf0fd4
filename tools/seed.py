"""Plant bugs: python3 tools/seed.py DEFS.py [ID...]
DEFS.py has BUGS = [dict(id, prop, edits=[(file, old, new)...], demo=python source, needs, breaks)].
Each is built in a scratch copy, must pass the existing tests, and its demo must tell the trees apart; it is
then written to seeded/<id>/, and the property's check is run against the scratch copy."""
import json, os, shutil, subprocess, sys, runpy, tempfile
R = "/verif"
defs = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
DEMO_SH = '#!/bin/bash\nexec env PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
for b in defs:
    if only and b["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", shell=True, check=True)
        dd = os.path.join(w, ".demo"); os.makedirs(dd)
        open(f"{dd}/demo.sh", "w").write(DEMO_SH); open(f"{dd}/demo.py", "w").write(b["demo"])
        def demo():
            return subprocess.run(["bash", f"{dd}/demo.sh"], cwd=w, capture_output=True, text=True)
        d0 = demo()
        for f, old, new in b["edits"]:
            p = f"{w}/python/moz/l10n/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d1 = demo()
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        tests = []
        for v in ("venv", "venv-noxml"):
            t = subprocess.run([f"/opt/{v}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=f"{w}/python", capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=f"{w}/python", PYTHONDONTWRITEBYTECODE="1"))
            tests.append(t.returncode)
            if t.returncode:
                print(t.stdout[-300:])
        ok = d0.returncode == 0 and d1.returncode != 0 and tests == [0, 0]
        print(b["id"], b["prop"], "demo clean/patched:", d0.returncode, d1.returncode, "tests:", tests, "KEEP" if ok else "REJECT", flush=True)
        if d0.returncode:
            print(d0.stdout[-800:], d0.stderr[-800:])
        if not ok:
            continue
        o = f"{R}/seeded/{b['id']}"
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "w").write(diff)
        open(f"{o}/demo.sh", "w").write(DEMO_SH); open(f"{o}/demo.py", "w").write(b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
        c = subprocess.run(["./check", b["prop"]], cwd=R, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
        print("   check exit", c.returncode, c.stdout.strip().split("\n")[0][:200], c.stderr[-300:] if c.returncode not in (0, 1) else "", flush=True)
    finally:
        shutil.rmtree(w)
