#!/usr/bin/env python3
"""plant.py <spec.py> [id...]: write /verif/seeded/<id> from the specs and check each
   (applies, builds, passes the 92 tests, demo ok without and failing with it, caught by its check)."""
import sys, os, subprocess, json, shutil, importlib.util
V = "/verif"; R = "/repo"
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean(): sh("git -C /repo checkout -q -- .")
def sub(p, old, new):
    s = open(p, encoding="utf-8", errors="surrogateescape", newline="").read()
    if s.count(old) == 0: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
    assert s.count(old) == 1, (p, s.count(old), old)
    open(p, "w", encoding="utf-8", errors="surrogateescape", newline="").write(s.replace(old, new))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
want = sys.argv[2:]; rows = []
for b in m.BUGS:
    if want and b["id"] not in want: continue
    d = "%s/seeded/%s" % (V, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); res = []
    try:
        for p, o, n in b["edits"]: sub(R + "/" + p, o, n)
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        files = {"demo.cpp": '#include "d.hpp"\n' + b["demo"], "d.hpp": open(V + "/tools/seeds/d.hpp").read(), "demo.sh": open(V + "/tools/seeds/demo.sh").read()}
        files.update(b.get("files", {}))
        for f, t in files.items(): open(d + "/" + f, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: res.append("BUILD FAILED " + r.stdout[-1500:])
        else:
            r = sh("bash /opt/vp/test.sh /tmp/t.json"); res.append(r.stdout.strip().splitlines()[-1])
            r = sh("bash %s/demo.sh" % d, cwd=R); res.append("demo with bug rc=%d %s" % (r.returncode, r.stdout.strip()[-300:]))
            if not os.environ.get("NOCHECK"):
                r = sh("VERIF_CCACHE=1 timeout 600 python3 %s/check.py %s | tail -3" % (V, b["property"])); t = r.stdout.strip().splitlines()
                res.append(("CAUGHT " if "VIOLATION" in r.stdout else "MISSED ") + " | ".join(t[-2:])[:300])
    finally: clean()
    rows.append((b["id"], d, res)); print(b["id"], *res, sep="\n   ", flush=True)
sh("bash /opt/vp/build.sh")
for i, d, res in rows:
    r = sh("bash %s/demo.sh" % d, cwd=R); print(i, "demo on clean rc=%d %s" % (r.returncode, r.stdout.strip()[-500:] if r.returncode else ""), flush=True)
