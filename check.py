#!/usr/bin/env python3
"""check.py <PROPERTY> : build the library from /repo's working tree, run the
property's explorer over all shards, write evidence, report violations."""
import sys, os, json, subprocess, hashlib, time, glob, shutil, struct, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS
NPROC = 8
PROFILES = {
  "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
  "plain": ["-O1", "-g1"],
  "sched": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-access-control"],   # compiled with, but not linked with, the thread sanitizer
}
COMPILER = {"sched": "clang++"}
def cxx(profile): return CXX[:-1] + [COMPILER.get(profile, "g++")]
def ldflags(profile): return [f for f in PROFILES[profile] if not (profile == "sched" and f.startswith("-fsanitize"))]
def jdk():
    for d in sorted(glob.glob("/usr/lib/jvm/*")):
        if os.path.exists(d + "/include/jni.h"): return d
    return "/usr/lib/jvm/java-17-openjdk-amd64"
INC = ["-I", REPO + "/src/framework", "-I", REPO + "/src/cas", "-I", REPO + "/src/jni",
       "-I/usr/include/xercesc", "-I/usr/include/apr-1.0", "-I" + jdk() + "/include", "-I" + jdk() + "/include/linux"]
DEFS = ["-DLINUX", "-D_REENTRANT", "-D_GNU_SOURCE", "-DNDEBUG", "-DTRACEOFF", "-DUIMA_PREFIX=\"\"", "-D_UIMA_LIBRARY_",
        "-D_LARGEFILE64_SOURCE", '-DPACKAGE_VERSION="2.5.0"', "-DUIMA_VERSION=2.5.0"]
LIBS = ["-lxerces-c", "-licuio", "-licui18n", "-licuuc", "-licudata", "-lapr-1", "-laprutil-1", "-lpthread", "-ldl"]
CXX = (["ccache"] if shutil.which("ccache") and os.environ.get("VERIF_CCACHE") else []) + ["g++"]

def die(msg, code=2):
    print("CHECK-ERROR:", msg); sys.stdout.flush(); sys.exit(code)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def srcs():
    return sorted(glob.glob(REPO + "/src/cas/*.cpp") + glob.glob(REPO + "/src/framework/*.cpp"))

def treehash(profile):
    h = hashlib.sha256(); h.update(repr((PROFILES[profile], DEFS, INC)).encode())
    for root in ("src/cas", "src/framework", "src/jni"):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fn):
                if f.endswith((".cpp", ".hpp", ".h", ".inl", ".c")):
                    p = os.path.join(d, f); h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def build_lib(profile):
    hh = treehash(profile); d = os.path.join(BUILD, "lib-%s-%s" % (profile, hh)); ar = os.path.join(d, "libuima.a")
    if os.path.exists(ar): os.utime(d); return ar, hh
    old = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)
    for o in old[:-3]: shutil.rmtree(o, ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    big = sorted(srcs(), key=lambda p: -os.path.getsize(p))
    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-4] + ".o")
        r = sh(cxx(profile) + ["-w", "-fPIC", "-c", s, "-o", o] + PROFILES[profile] + INC + DEFS)
        return s, r.returncode, r.stdout, o
    objs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for s, rc, out, o in ex.map(one, big):
            if rc: shutil.rmtree(tmp, ignore_errors=True); die("library source does not compile: %s\n%s" % (s, out[-3000:]))
            objs.append(o)
    r = sh(["ar", "rcs", os.path.join(tmp, "libuima.a")] + objs)
    if r.returncode: die("ar: " + r.stdout)
    for o in objs: os.unlink(o)
    shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
    return ar, hh

def compile_harness_obj(src, profile, outdir):
    o = os.path.join(outdir, os.path.basename(src) + ".o")
    r = sh(cxx(profile) + ["-w", "-std=c++17", "-fPIC", "-c", src, "-o", o, "-I", VERIF + "/harness"] + PROFILES[profile] + INC + DEFS)
    return o, r

def build(prop, spec):
    profile = spec.get("profile", "asan")
    os.makedirs(BUILD, exist_ok=True)
    outdir = os.path.join(BUILD, "run-" + prop); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    with cf.ThreadPoolExecutor(4) as ex:
        lib = ex.submit(build_lib, profile)
        hs = [ex.submit(compile_harness_obj, os.path.join(VERIF, "harness", s), profile, outdir) for s in [spec["harness"]] + spec.get("extra", [])]
        sos = [(s, ex.submit(compile_harness_obj, os.path.join(VERIF, "harness", s), profile, outdir)) for s in spec.get("plugins", [])]
        rts = [(s, ex.submit(compile_harness_obj, os.path.join(VERIF, "harness", s), "plain", outdir)) for s in spec.get("runtime", [])]
        ar, hh = lib.result()
        objs = []
        for h in hs:
            o, r = h.result()
            if r.returncode: die("harness does not compile:\n" + r.stdout[-4000:])
            objs.append(o)
        for s, h in sos:
            o, r = h.result()
            if r.returncode: die("plugin does not compile:\n" + r.stdout[-4000:])
            so = os.path.join(outdir, "lib" + os.path.splitext(s)[0] + ".so")
            r = sh(["g++", "-shared", o, "-o", so] + ldflags(profile))
            if r.returncode: die("plugin does not link:\n" + r.stdout[-4000:])
        rt = []
        for s, h in rts:
            o, r = h.result()
            if r.returncode: die("runtime does not compile:\n" + r.stdout[-4000:])
            so = os.path.join(outdir, "lib" + os.path.splitext(s)[0] + ".so")
            r = sh(["g++", "-shared", o, "-o", so, "-ldl", "-lpthread"])
            if r.returncode: die("runtime does not link:\n" + r.stdout[-4000:])
            rt += [so, "-Wl,-rpath," + outdir]
    exe = os.path.join(outdir, "harness")
    r = sh(["g++"] + objs + ["-o", exe] + ldflags(profile) + ["-rdynamic"] + rt + ["-Wl,--whole-archive", ar, "-Wl,--no-whole-archive"] + LIBS)
    if r.returncode: die("harness does not link:\n" + r.stdout[-4000:])
    return exe, outdir, hh

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:print_summary=1:max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=3"
    e["LC_ALL"] = e["LANG"] = "C.UTF-8"
    return e

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt"); res = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            # KNOWN: property=<id> key=<key> <what fails>
            if l.startswith("KNOWN: "):
                w = l[7:].split(None, 2)
                if w[0] == "property=" + prop: res[w[1][4:]] = w[2]
    return res

def main():
    prop = sys.argv[1]; spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: tier = "thorough"
    t0 = time.time()
    exe, outdir, hh = build(prop, spec)
    tb = time.time() - t0
    known = known_findings(prop)
    base = [exe, "--scratch", os.path.join(outdir, "scratch")] + (["--thorough"] if tier == "thorough" else [])
    os.makedirs(os.path.join(outdir, "scratch"), exist_ok=True)
    for k in known: base += ["--known", k]
    limit = 780 if tier == "quick" else 4 * 3600
    nsh = spec.get("shards", NPROC)
    def shard(i):
        out = os.path.join(outdir, "s%d" % i)
        try:
            r = subprocess.run(base + ["--shard", "%d/%d" % (i, nsh), "--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", env=env(), timeout=limit - (time.time() - t0), cwd=os.path.join(outdir, "scratch"))
            return i, r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired: return i, "timeout", "", ""
    with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(shard, range(nsh)))
    tot = dict(execs=0, steps=0, checks=0); cover = {}; knownhit = {}; samples = []; states = set(); outs = set()
    cands = []
    for i, rc, so, se in res:
        out = os.path.join(outdir, "s%d" % i)
        if os.path.exists(out + ".json"):
            j = json.load(open(out + ".json"))
            for k in tot: tot[k] += j[k]
            for k, v in j["cover"].items(): cover[k] = cover.get(k, 0) + v
            for k, v in j["known"].items(): knownhit[k] = knownhit.get(k, 0) + v
            samples += j["samples"]
            for nm, st in (("states", states), ("outcomes", outs)):
                b = open(out + "." + nm, "rb").read(); st.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            if j["violation"]: cands.append((i, j["choices"], j["violation"]))
            elif rc != 0: die("shard %d exit %s with result file\n%s" % (i, rc, se[-2000:]))
        elif rc == "timeout": die("shard %d ran out of time" % i)
        elif rc in (95, 96): die("harness error (shard %d): %s" % (i, se[-2000:]))
        else:
            cur = out + ".cur"
            if not os.path.exists(cur):
                # died in initialisation: the library cannot even be set up
                cands.append((i, [], "process died (exit %s) during set-up: %s" % (rc, se[-1500:]))); continue
            b = open(cur, "rb").read(); ex_, n = struct.unpack("<QI", b[:12]); ch = list(struct.unpack("<%dI" % n, b[12:12 + 4 * n]))
            why = "hang" if rc == 97 else "crash (exit %s)" % rc
            cands.append((i, ch, why + ": " + "\n".join([l for l in se.splitlines() if l.strip()][:25])))
    vio = []
    for i, ch, msg in sorted(cands, key=lambda c: len(c[1])):
        cs = ",".join(map(str, ch))
        try:
            r = subprocess.run(base + ["--hang", "60", "--replay", cs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=200, cwd=os.path.join(outdir, "scratch"))
            rc = r.returncode
        except subprocess.TimeoutExpired: rc = 97; r = None
        mode = "single"
        if rc == 0:
            # depends on earlier executions in the process: confirm by re-running that shard
            out = os.path.join(outdir, "r%d" % i)
            r2 = subprocess.run(base + ["--hang", "60", "--shard", "%d/%d" % (i, nsh), "--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), cwd=os.path.join(outdir, "scratch"))
            if r2.returncode == 0: print("note: candidate not reproducible, dropped:", msg); continue
            mode = "shard"
        elif rc in (95, 96): die("replay diverged: %s" % (r.stderr[-1500:]))
        rd = os.path.join(VERIF, "build", "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.txt" % (prop, len(vio)))
        with open(path, "w") as f:
            f.write("property: %s\ntree: %s\nmode: %s (shard %d/%d)\nchoices: %s\nreplay: %s --replay %s\nviolation: %s\n\n" % (prop, hh, mode, i, nsh, cs, " ".join(base), cs, msg))
            if r is not None: f.write(r.stdout[-8000:] + "\n" + r.stderr[-8000:])
        vio.append((path, msg))
        if len(vio) >= 3: break
    wall = time.time() - t0
    cov = dict(states=len(states), transitions=tot["steps"], traces_validated_against_impl=tot["execs"],
               evaluations=tot["execs"], distinct_nontrivial=len(outs), comparisons=tot["checks"], rule=spec["rule"], bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
               cover=cover, exhaustive=not vio, samples=[s.splitlines()[:60] for s in samples[:4]] or [["(none)"]],
               build_s=round(tb, 1), known_findings_hit=knownhit)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []) + ["bounded: nothing is claimed outside the stated alphabet and depth", "library compiled by g++ -O1 with NDEBUG and AddressSanitizer"],
              wall_s=round(wall, 1), violations=len(vio))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s tier=%s executions=%d transitions=%d states=%d outcomes=%d comparisons=%d build=%.1fs wall=%.1fs" % (prop, tier, tot["execs"], tot["steps"], len(states), len(outs), tot["checks"], tb, wall))
    for k in sorted(cover): print("  cover %-40s %d" % (k, cover[k]))
    for k in known:
        if knownhit.get(k): print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if vio:
        for p, m in vio:
            print("  " + m.splitlines()[0][:400]); print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    missing = [c for c in spec.get("must_cover", []) if not cover.get(c)]
    if missing: die("vacuous exploration, never reached: %s" % missing)
    sys.exit(0)
main()
