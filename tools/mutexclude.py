"""Adds to M/exclude the mutants in whose code a compile error lies."""
import json, re, sys, os
M = sys.argv[1]
bad = set()
n = 0
for line in open(M + "/build.json"):
    try: j = json.loads(line)
    except ValueError: continue
    m = j.get("message")
    if j.get("reason") != "compiler-message" or m["level"] != "error": continue
    n += 1
    for s in m["spans"]:
        if not s["is_primary"]: continue
        f = s["file_name"]
        if not os.path.isabs(f): f = M + "/repo/" + f
        text = open(f, "rb").read()
        a, b = s["byte_start"], s["byte_end"]
        # innermost switched block around the span: the last `__m(` before it; also those inside it
        ids = [int(x) for x in re.findall(rb"__m\((\d+)u32\)", text[a:b])]
        before = re.findall(rb"__m\((\d+)u32\)", text[max(0, a - 4000):a])
        bad.update(ids[:1] if ids else [])
        if before: bad.add(int(before[-1]))
print(n, "errors,", len(bad), "more left out")
with open(M + "/exclude", "a") as f:
    for b in sorted(bad): f.write(f"{b}\n")
if not bad: sys.exit("stuck: see build.json")
