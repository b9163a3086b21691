"""Create and validate planted bugs (development helper; no check reads it).

seed(id, prop, edits=[(file, old, new)], demo=python_text, needs=..., breaks=...)
Works in a scratch copy of /repo, writes /verif/seeded/<id>, confirms: stable tests pass, demo 0 on clean / nonzero with
the patch, then runs the property's check on the copy and records in tools/seed_status.json whether it catches the change."""
import json, os, subprocess, sys, textwrap

R = "/tmp/seedrepo"
STATUS = "/verif/tools/seed_status.json"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    sh(f"rm -rf {R}; cp -a /repo {R}")
    assert sh(f"git -C {R} status --short").stdout.strip() == "", "repo dirty"


def tests_broken():
    sh("rm -rf /tmp/seedw; mkdir /tmp/seedw; timeout 400 /opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider --timeout=120 --tb=no --continue-on-collection-errors --basetemp=/tmp/seedw/t -o junit_family=xunit2 --junitxml=/tmp/seedw/j.xml; python3 /opt/vp/results.py /tmp/seedw/o.json junit:/tmp/seedw/j.xml", cwd=R, env={**os.environ, "PYTHONPATH": f"{R}/src"})
    r = json.load(open("/tmp/seedw/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(r["passed"]))


def run_check(prop, only=None):
    c = sh(f"python3 run_check.py {prop}", cwd="/verif", env={**os.environ, "ECALC_SRC": f"{R}/src"})
    return c, c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout


def record(id, **k):
    s = json.load(open(STATUS)) if os.path.exists(STATUS) else {}
    s[id] = k
    json.dump(s, open(STATUS, "w"), indent=1, sort_keys=True)


def seed(id, prop, edits, demo, needs, breaks, tests=True):
    fresh()
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=src exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    clean = sh(f"bash {d}/demo.sh", cwd=R)
    for f, old, new in edits:
        p = f"{R}/src/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    bad = sh(f"bash {d}/demo.sh", cwd=R)
    t = tests_broken() if tests else ""
    c, caught = run_check(prop)
    ok = clean.returncode == 0 and bad.returncode != 0 and not t
    print(f"{id} [{prop}] {'VALID' if ok else 'INVALID'} demo clean={clean.returncode} bad={bad.returncode} tests_broken={len(t)} {t[:2]} check_exit={c.returncode} " + ("CAUGHT" if caught else "MISSED"))
    if clean.returncode:
        print("  clean demo:", (clean.stdout + clean.stderr)[-600:])
    if not bad.returncode:
        print("  demo does not fail with the patch")
    lines = [l.strip() for l in c.stdout.splitlines() if "counterexample" in l]
    if not caught:
        print(c.stdout[-1500:], c.stderr[-500:])
    else:
        print("   ", lines[:2])
    record(id, property=prop, valid=ok, caught=caught, by=lines[0][15:120] if lines else "", breaks=breaks, needs=needs)
    sys.stdout.flush()
    return ok, caught


def recheck(ids=None):
    """run the checks on the committed seeds again"""
    for id in ids or sorted(os.listdir("/verif/seeded")):
        fresh()
        d = f"/verif/seeded/{id}"
        m = json.load(open(f"{d}/meta.json"))
        a = sh(f"git -C {R} apply {d}/patch.diff")
        c, caught = run_check(m["property"])
        lines = [l.strip() for l in c.stdout.splitlines() if "counterexample" in l]
        print(id, a.returncode, "CAUGHT" if caught else "MISSED", lines[:1], flush=True)
        record(id, property=m["property"], valid=a.returncode == 0, caught=caught, by=lines[0][15:120] if lines else "", breaks=m["what_it_breaks"], needs=m["needs"])


if __name__ == "__main__":
    recheck(sys.argv[1:] or None)
