"""mutrun.py OUT.tsv [N [SEED]] | mutrun.py OUT.tsv ids FILE TIER: runs the checks on (a sample of) the mutants built by mutbuild.sh.
Each line of OUT: id, what killed it (or SURVIVED), seconds, where and what. Goes on where OUT ends."""
import subprocess, sys, os, random, time
M = "/tmp/mut"
VH = M + "/harness/target/release/vh"
out = sys.argv[1]
tier = "mini"
muts = [l.rstrip("\n").split("\t") for l in open(M + "/list.tsv")]
if len(sys.argv) > 3 and sys.argv[2] == "ids":
    ids = {l.split()[0] for l in open(sys.argv[3])}
    muts = [m for m in muts if m[0] in ids]
    tier = sys.argv[4]
else:
    random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(muts)
    if len(sys.argv) > 2: muts = muts[: int(sys.argv[2])]
done = {l.split("\t")[0] for l in open(out)} if os.path.exists(out) else set()
checks = [l.split()[0] for l in subprocess.run([VH, "list"], capture_output=True, text=True).stdout.splitlines()]
wins = {}
f = open(out, "a")
for m in muts:
    if m[0] in done: continue
    src = m[1].split(":")[0]
    w = wins.setdefault(src, {})
    order = sorted(checks, key=lambda c: (-w.get(c, 0), -sum(x.get(c, 0) for x in wins.values()), c))
    t0 = time.time(); res = "SURVIVED"
    for c in order:
        try:
            r = subprocess.run([VH, "check", c, tier], capture_output=True, text=True, timeout=400,
                               env=dict(os.environ, VH_MUT=m[0], VH_ROOT=M + "/root", TMPDIR=M + "/tmp"))
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc != 0:
            res = c if rc == 1 else f"{c}!{rc}"
            if rc == 1:
                w[c] = w.get(c, 0) + 1
                break
    f.write("\t".join([m[0], res, f"{time.time()-t0:.1f}", m[1], m[2]]) + "\n"); f.flush()
