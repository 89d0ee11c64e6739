#!/usr/bin/env python3
"""Make, verify and try planted bugs.  seed.py make SPEC.py | verify ID... | try ID...   (all in scratch clones of /repo)"""
import sys, os, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded"); R = "/repo"
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): run(["git", "-C", R, "checkout", "--", "."])
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
ln -s "$PWD" "$t/succinct"
g++ -std=gnu++17 -O1 -g -w %s-I"$PWD" -I"$t" "$d/demo.cpp" "$PWD/rs_bit_vector.cpp" "$PWD/bp_vector.cpp" -o "$t/demo"%s || exit 3
cd "$t" && timeout 120 %s./demo
'''
def make(spec):
    global R
    ns = {}; exec(open(spec).read(), ns); C = "/tmp/seedmake-%d" % os.getpid(); run(["git", "clone", "-q", R, C]); R = C
    for b in ns["BUGS"]:
        d = os.path.join(S, b["id"]); clean(); ok = True
        if os.path.exists(os.path.join(d, "patch.diff")) and "--force" not in sys.argv: continue
        for f, old, new in b["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit does not match", f, s.count(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: clean(); continue
        diff = run(["git", "-C", R, "diff"]).stdout; clean(); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff); open(os.path.join(d, "demo.cpp"), "w").write(b["demo"]); open(os.path.join(d, "demo.sh"), "w").write(DEMO % (b.get("flags", ""), " " + b["libs"] if "libs" in b else "", b.get("run", ""))); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1); print("made", b["id"])
    shutil.rmtree(C, ignore_errors=True)
def verify(ids):
    """in a scratch clone, built with the flags of /opt/vp/build.sh: every test passes with the patch, the demo tells the trees apart"""
    C = "/tmp/seedver-%d" % os.getpid(); shutil.rmtree(C, ignore_errors=True); run(["git", "clone", "-q", R, C]); B = C + "/_build"
    def build():
        run(["cmake", "-S", C, "-B", B, "-G", "Ninja", "-Wno-deprecated", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g", "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"]); return run(["ninja", "-C", B])
    build(); tests = sorted(x[:-4] for x in os.listdir(C) if x.startswith("test_") and x.endswith(".cpp"))
    for i in ids:
        d = os.path.join(S, i); run(["git", "-C", C, "checkout", "--", "."]); a = run(["bash", os.path.join(d, "demo.sh")], cwd=C); r = run(["git", "-C", C, "apply", os.path.join(d, "patch.diff")])
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        t = build(); failed = [] if t.returncode == 0 else ["build: " + t.stdout[-400:]]; W = C + "/_build/run"; os.makedirs(W, exist_ok=True)
        if not failed:
            ps = [(x, subprocess.Popen([B + "/" + x], cwd=W, env=dict(os.environ, MALLOC_PERTURB_="255") if x == "test_bit_vector" else None, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for x in tests]; failed = [x for x, q in ps if q.wait()]
        b = run(["bash", os.path.join(d, "demo.sh")], cwd=C)
        print(i, "OK" if a.returncode == 0 and b.returncode not in (0, 3) and not failed else "BAD", "demo clean=%d bug=%d failed tests=%s" % (a.returncode, b.returncode, failed), a.stdout[-200:] if a.returncode else "", flush=True)
    shutil.rmtree(C, ignore_errors=True)
def attempt(ids):
    C = "/tmp/seedtry-repo"  # a scratch copy; the registered checks themselves always run against /repo
    for i in ids:
        shutil.rmtree(C, ignore_errors=True); run(["git", "clone", "-q", R, C]); shutil.copy(R + "/succinct_config.hpp", C)
        d = os.path.join(S, i); p = json.load(open(os.path.join(d, "meta.json")))["property"]; run(["git", "-C", C, "apply", os.path.join(d, "patch.diff")]); t0 = time.time()
        r = run(["python3", os.path.join(V, "check.py"), p], env=dict(os.environ, VERIF_REPO=C))
        l = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "counterexample", "native", "CHECK-ERR", p))]
        print("%-34s %s rc=%d %s %.0fs | %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 and any("VIOLATION property=" + p in x for x in l) else "MISSED", time.time() - t0, " | ".join(x[:140] for x in l)), flush=True)
    shutil.rmtree(C, ignore_errors=True)
ids = sys.argv[2:]; ids = [x for x in ids if not x.startswith("--")] 
if sys.argv[1] == "make": make(ids[0])
else:
    ids = ids or sorted(os.listdir(S)); {"verify": verify, "try": attempt}[sys.argv[1]](ids)
