#!/usr/bin/env python3
"""Writes and verifies planted bugs.

  mkseed.py SPECS.py [ID...]   generate /verif/seeded/<id>/ from the specs
SPECS.py defines SEEDS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new)], main (source of the demonstration).
Each one is checked in a scratch copy of /repo: it applies, touches lines of
the original repository only, builds, passes the tests, and the demonstration
exits 0 without and nonzero with it.
"""
import json, os, re, shutil, subprocess, sys, runpy

BASE = "734068f"
WT = "/tmp/wt"
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded")

def sh(cmd, cwd=None, ok=True, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    if ok and r.returncode != 0:
        raise SystemExit(f"{cmd}: {r.stdout}{r.stderr}")
    return r

def blame_lines(path):
    """line number -> whether it is of the original repository"""
    r = sh(f"git -C /repo blame -s {path}")
    return {i + 1: l.startswith("^") for i, l in enumerate(r.stdout.splitlines())}

def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    if not os.path.exists(WT):
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD")
    baseline = json.load(open("/opt/vp/BASELINE.json"))
    for s in specs:
        if want and s["id"] not in want:
            continue
        d = os.path.join(out, s["id"])
        sh(f"git -C {WT} checkout -q -- .")
        notes = []
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            text = open(p).read()
            n = text.count(old)
            if n != 1:
                raise SystemExit(f"{s['id']}: {f}: {n} matches of {old!r}")
            open(p, "w").write(text.replace(old, new))
        diff = sh(f"git -C {WT} diff").stdout
        # removed or changed lines must be original
        for f in {e[0] for e in s["edits"]}:
            orig = blame_lines(f)
            fd = sh(f"git -C {WT} diff -U0 -- {f}").stdout
            n_orig = n_new = 0
            ln = 0
            for l in fd.splitlines():
                m = re.match(r"@@ -(\d+)", l)
                if m:
                    ln = int(m[1]); continue
                if l.startswith("-") and not l.startswith("---"):
                    if orig[ln]: n_orig += 1
                    else: n_new += 1
                    ln += 1
            notes.append(f"{os.path.basename(f)}: {n_orig} original / {n_new} fix-added lines")
            if n_orig == 0 or n_new > 0:
                notes.append("WARNING lines")
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(s["main"].lstrip())
        shutil.copy(f"{here}/seed-rec.rs", f"{d}/rec.rs")
        shutil.copy(f"{here}/seed-demo.sh", f"{d}/demo.sh")
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
        open(f"{d}/meta.json", "a").write("\n")
        # with the change
        r = sh(f"bash {d}/demo.sh", cwd=WT, ok=False)
        with_rc, with_out = r.returncode, r.stdout + r.stderr
        if s.get("tests", True):
            t = sh(". /opt/vp/env.sh; cd /tmp/wt; cargo test --workspace --all-features --no-fail-fast --locked --offline", cwd=WT, ok=False)
            passed = len(re.findall(r"^test .* \.\.\. ok$", t.stdout, re.M))
            notes.append(f"tests rc={t.returncode} passed={passed}")
        sh(f"git -C {WT} checkout -q -- .")
        r = sh(f"bash {d}/demo.sh", cwd=WT, ok=False)
        good = with_rc not in (0, 2) and r.returncode == 0
        print(("OK  " if good else "BAD ") + s["id"], "with", with_rc, "without", r.returncode, notes, flush=True)
        if not good:
            print(with_out[-1500:], "-----", r.stdout[-500:], r.stderr[-2500:])

main()
