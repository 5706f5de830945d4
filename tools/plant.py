"""Plant a change, confirm it is a valid planted bug, store it, and run the checks on it.

    python3 tools/plant.py plants.py [id ...]        # plants.py: a list PLANTS of dicts
        id, property, edits [(file, old, new)], demo (python source), needs, breaks

A plant is valid if it applies to a copy of /repo's HEAD, changes original lines, builds,
passes the tests, and its demonstration passes without it and fails with it.
Nothing here is used by the checks.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parents[1]
TRY = "--try" in sys.argv
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
# run in the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/pyrayt/mplconfig
exec /opt/venv/bin/python "$here/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           MPLCONFIGDIR="/opt/pyrayt/mplconfig", PYTHONWARNINGS="ignore::FutureWarning")


def sh(cmd, cwd, timeout=400, **env):
    r = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    allchecks = "--all" in want
    want = [w for w in want if not w.startswith("--")]
    from concurrent.futures import ThreadPoolExecutor
    todo = [p for p in ns["PLANTS"] if not want or p["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for line in ex.map(lambda p: one(p, allchecks), todo):
            print(line, flush=True)


def one(p, allchecks):
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant_"))
    try:
        repo = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        for f, old, new in p["edits"]:
            t = (repo / f).read_text()
            if t.count(old) != 1:
                return f"{p['id']}: INVALID edit of {f}: {t.count(old)} matches of {old[:60]!r}"
            (repo / f).write_text(t.replace(old, new))
        diff = subprocess.run(["git", "diff", "HEAD"], cwd=repo, capture_output=True, text=True).stdout
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        notorig = []
        for f in {e[0] for e in p["edits"]}:
            base = subprocess.run(["git", "show", f"4deb2af:{f}"], cwd=repo, capture_output=True, text=True).stdout.splitlines()
            notorig += [l for l in gone if l.strip() and l not in base]
        d = HERE / "seeded" / p["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(SH); os.chmod(d / "demo.sh", 0o755)
        (d / "demo.py").write_text(p["demo"].lstrip())
        (d / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "python_files=test_*.py int_test_*.py", "test"], repo)
        problems = []
        if notorig or not gone:
            problems.append(f"lines not original: {notorig[:2]}")
        if rc:
            problems.append("tests fail: " + " ".join(l for l in out.splitlines() if l.startswith("FAILED"))[:200])
        rc, out = sh(["bash", str(d / "demo.sh")], "/repo")
        if rc:
            problems.append("demo fails on clean: " + out[-300:])
        rc, out = sh(["bash", str(d / "demo.sh")], str(repo))
        if rc == 0:
            problems.append("demo passes with the change")
        last = out.strip().splitlines()[-1] if out.strip() else ""
        if problems:
            shutil.rmtree(d)
        # --try: run the check also on a change that is fine as a test but touches lines that are not the original ones
        if problems and not (TRY and len(problems) == 1 and problems[0].startswith("lines not original")):
            return f"{p['id']} [{p['property']}]: INVALID {problems}"
        pids = [p["property"]]
        if allchecks:
            pids = [json.loads(l)["id"] for l in open(HERE / "properties.jsonl")]
        res = {}
        for pid in pids:
            rc, out2 = sh(["python3-vt", "-m", "sa.run", pid, "--tier", "quick", "--repo", str(repo)], HERE, 900, VERIF_EVIDENCE=str(tmp / "ev"))
            res[pid] = rc
            if pid == p["property"]:
                first = next((l for l in out2.splitlines() if "VIOLATION" in l or "violation" in l), out2.strip().splitlines()[-1] if out2.strip() else "")
        return (f"{p['id']} [{p['property']}]: {'valid' if not problems else 'not original'} ({last[:90]}); rc={res[p['property']]} "
                f"{'CAUGHT' if res[p['property']] == 1 else 'MISSED'} also={[k for k, v in res.items() if v == 1 and k != p['property']]} {[k for k, v in res.items() if v not in (0, 1)]}\n      {first[:200]}")
    finally:
        shutil.rmtree(tmp)


main()
