#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

usage: check.py <property> [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--verbose]
       check.py --replay <dir>
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself could not run (e.g. /repo does not compile)
"""
import sys, os, json, subprocess, shutil, tempfile, time, signal, threading, queue, argparse
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); sys.path.insert(0, V)
import jobs as JOBS

CLANG = "clang++"; GXX = "g++"
BCFLAGS = "-std=gnu++17 -O0 -Xclang -disable-O0-optnone -gline-tables-only -emit-llvm -c -fno-threadsafe-statics -w".split() + ["-include", os.path.join(V, "harness", "pre.h")]
SUBST = {"succinct::broadword::popcount": "sxspec_popcount", "succinct::broadword::select_in_word": "sxspec_select_in_word"}
LEMMAS = [("h_word", "w_popcount", {}, False), ("h_word", "w_select", {"lo": 0, "hi": 31}, True), ("h_word", "w_select", {"lo": 32, "hi": 63}, True)]
procs = set(); plock = threading.Lock(); stopping = False

def sh(cmd, timeout=None, env=None, out=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    with plock: procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        kill(p); o, _ = p.communicate(); return None, o.decode(errors="replace")
    finally:
        with plock: procs.discard(p)
def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
def killall():
    global stopping; stopping = True
    with plock:
        for p in list(procs): kill(p)

class Build:
    """bitcode and native executables of one harness in one configuration"""
    def __init__(self, wd): self.wd = wd; self.cache = {}; self.lock = threading.Lock()
    def once(self, key, f):
        with self.lock:
            if key not in self.cache: self.cache[key] = [threading.Lock(), None, None]
            c = self.cache[key]
        with c[0]:
            if c[1] is None:
                try: c[2] = f(); c[1] = 1
                except Exception as e: c[1] = 2; c[2] = e
            if c[1] == 2: raise c[2]
            return c[2]
    def incs(self, cfg):
        def mk():
            d = os.path.join(self.wd, "inc_" + cfg); os.makedirs(d); os.symlink(REPO, os.path.join(d, "succinct")); fl = ["-I" + os.path.join(V, "harness"), "-I" + REPO, "-I" + d]
            if cfg == "repo": c = (1, 0)
            else: c = {"i0p0": (0, 0), "i1p0": (1, 0), "i1p1": (1, 1)}[cfg]
            txt = "#pragma once\n#ifndef SUCCINCT_USE_LIBCXX\n#   define SUCCINCT_USE_LIBCXX 0\n#endif\n#ifndef SUCCINCT_USE_INTRINSICS\n#   define SUCCINCT_USE_INTRINSICS %d\n#endif\n#ifndef SUCCINCT_USE_POPCNT\n#   define SUCCINCT_USE_POPCNT %d\n#endif\n" % c
            open(os.path.join(d, "succinct_config.hpp"), "w").write(txt)
            if cfg != "repo":
                y = os.path.join(d, "overlay.yaml"); open(y, "w").write(json.dumps({"version": 0, "roots": [{"type": "file", "name": REPO + "/succinct_config.hpp", "external-contents": os.path.join(d, "succinct_config.hpp")}]})); fl += ["-ivfsoverlay", y]
                if c[1]: fl += ["-msse4.2"]
            return fl
        return self.once(("inc", cfg), mk)
    def libs(self): return sorted(f for f in os.listdir(REPO) if f.endswith(".cpp") and not f.startswith("test_") and os.path.isfile(os.path.join(REPO, f)) and "BOOST_" + "AUTO_TEST" not in open(os.path.join(REPO, f), errors="replace").read())
    def cc(self, src, obj, fl):
        rc, o = sh([CLANG] + BCFLAGS + fl + [src, "-o", obj], timeout=300)
        if rc != 0: raise RuntimeError("compiling %s failed:\n%s" % (src, o[-3000:]))
        return obj
    def obj(self, src, cfg):
        fl = self.incs(cfg); return self.once(("bc", src, cfg), lambda: self.cc(src, os.path.join(self.wd, os.path.basename(src) + "." + cfg + ".o.bc"), fl))
    def bitcode(self, h, cfg):
        def mk():
            srcs = [os.path.join(V, "harness", h + ".cpp"), os.path.join(V, "harness", "rt_sym.cpp")] + [os.path.join(REPO, l) for l in self.libs()]
            res = [None] * len(srcs); errs = []
            def one(i):
                try: res[i] = self.obj(srcs[i], cfg)
                except Exception as e: errs.append(e)
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(srcs))]; [t.start() for t in ts]; [t.join() for t in ts]
            if errs: raise errs[0]
            l = os.path.join(self.wd, h + "." + cfg + ".l.bc"); rc, o = sh(["llvm-link-18"] + res + ["-o", l], timeout=120)
            if rc != 0: raise RuntimeError("llvm-link: " + o[-2000:])
            import re
            ents = []; [ents.extend(["--entry", e]) for e in re.findall(r"^SX_ENTRY\((\w+)\)", open(srcs[0]).read(), re.M)]
            b = os.path.join(self.wd, h + "." + cfg + ".bc"); ni = []; [ni.extend(["--noinline", s]) for s in SUBST]
            rc, o = sh([SX, "prepare", l, "-o", b] + ents + ni, timeout=300)
            if rc != 0: raise RuntimeError("prepare: " + o[-2000:])
            return b
        return self.once(("link", h, cfg), mk)
    def native(self, h, cfg, asan):
        def mk():
            e = os.path.join(self.wd, "%s.%s.%s.exe" % (h, cfg, "asan" if asan else "nat")); fl = self.incs(cfg); cc = GXX if cfg == "repo" else CLANG
            srcs = [os.path.join(V, "harness", h + ".cpp"), os.path.join(V, "harness", "rt_native.cpp")] + [os.path.join(REPO, l) for l in self.libs()]
            opt = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O2"]
            objs = [None] * len(srcs); errs = []
            def one(i):
                o = "%s.%d.o" % (e, i); rc, out = sh([cc, "-std=gnu++17", "-w", "-DSX_NATIVE"] + opt + fl + ["-c", srcs[i], "-o", o], timeout=300); objs[i] = o
                if rc != 0: errs.append(out)
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(srcs))]; [t.start() for t in ts]; [t.join() for t in ts]
            if not errs:
                rc, out = sh([cc] + opt + objs + ["-o", e, "-lboost_iostreams"], timeout=200)
                if rc != 0: errs.append(out)
            if errs: raise RuntimeError("native build failed:\n" + errs[0][-3000:])
            return e
        return self.once(("nat", h, cfg, asan), mk)
    def replay(self, job, inputs, asan, limit=30):
        """-> (verdict, text): 'ok', 'fail', 'hang', 'void'"""
        exe = self.native(job["h"], job.get("cfg", "repo"), asan == 1); d = tempfile.mkdtemp(dir=self.wd); f = os.path.join(d, "inputs.txt"); open(f, "w").write("\n".join(map(str, inputs)) + "\n")
        env = dict(os.environ); env["MALLOC_PERTURB_"] = "165"; env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1"
        rc, o = sh((VALGRIND if asan == 2 else []) + [exe, job["e"], f, d] + ["%s=%d" % kv for kv in job.get("p", {}).items()], timeout=limit, env=env); shutil.rmtree(d, ignore_errors=True)
        if rc is None: return "hang", o
        if rc == 0: return "ok", o
        if rc in (77, 78, 79): return "void", o
        return "fail", o

SX = os.path.join(V, "build", "sx")
# how a counterexample is replayed; valgrind sees the accesses that cross the end of a block inside its last eight bytes, which the address sanitizer's fast path does not
MODES = (0, 1, 2); MODE = ["plain g++ -O2 build", "address sanitizer build", "g++ -O2 build under valgrind"]
VALGRIND = ["valgrind", "-q", "--error-exitcode=43", "--partial-loads-ok=no", "--undef-value-errors=no", "--leak-check=no"]
def ensure_engine():
    rc, o = sh(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(V, "build")], timeout=600)
    if rc != 0: print(o[-3000:]); print("engine build failed"); sys.exit(2)

def run_job(b, job, subst, n, T):
    bc = b.bitcode(job["h"], job.get("cfg", "repo")); out = os.path.join(b.wd, "out%d.json" % n); wk = os.path.join(b.wd, "w%d" % n); os.makedirs(wk, exist_ok=True)
    cmd = [SX, "run", bc, "--entry", job["e"], "--time", str(T), "--out", out, "--workdir", wk, "--max-viol", "4"]
    for k, v in job.get("p", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
    if subst: 
        for k, v in SUBST.items():
            if subst is True or k.endswith(subst): cmd += ["--subst", "%s=%s" % (k, v)]
    rc, o = sh(cmd, timeout=T + 60); shutil.rmtree(wk, ignore_errors=True)
    try: r = json.load(open(out))
    except Exception: r = {"status": "timeout" if rc is None else "error", "note": o[-500:]}
    return r

def load_known():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f)).get("findings", []) if os.path.exists(f) else []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--jobs", type=int, default=0); ap.add_argument("--only"); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--replay"); ap.add_argument("--time", type=float, default=0)
    a = ap.parse_args(); t0 = time.time(); ensure_engine()
    wd = tempfile.mkdtemp(prefix="vcheck_sx_", dir="/tmp"); rc = 2
    try:
        b = Build(wd)
        rc = do_replay(b, a.replay) if a.replay else decide(a, b, t0)
    except RuntimeError as e: print(str(e)); print("CHECK-ERROR: the harness could not be built from the current tree")
    finally:
        killall(); shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def do_replay(b, d):
    m = json.load(open(os.path.join(d, "meta.json"))); inp = [int(x) for x in open(os.path.join(d, "inputs.txt")).read().split()]; bad = 0
    for asan in MODES if m["kind"] == "memory" else MODES[:2]:
        v, o = b.replay(m["job"], inp, asan); print("replay (%s): %s\n%s" % (MODE[asan], v, o[-1500:])); bad |= v in ("fail", "hang")
    return 1 if bad else 0

def decide(a, b, t0):
    prop, tier = a.prop, a.tier; jobs = [dict(j) for j in JOBS.jobs(prop, tier)]
    if a.only: jobs = [j for j in jobs if a.only in j["e"] + str(j.get("p", {}))]
    if not jobs: print("unknown property", prop); return 2
    ncpu = a.jobs or min(8, os.cpu_count() or 1); BUDGET = 600 if tier == "quick" else 7200
    need_lemma = any(j.get("subst", False) for j in jobs)
    q = []; n = 0
    if need_lemma:
        for h, e, p, s in LEMMAS: q.append({"h": h, "e": e, "p": p, "subst": "popcount" if s else False, "T": 60, "lemma": True, "bounds": "every 64-bit word"})
    # longest first, by declared cost
    q += sorted(jobs, key=lambda j: -j.get("cost", 1))
    res = []; cand = []; lock = threading.Lock(); found = []; idx = [0]; errors = []; unrep = []; traces = [0, 0]; tsamples = []
    done_keys = set(); known = [k for k in load_known() if k["property"] == prop]; known_hit = {}
    # native builds in the background
    hs = sorted(set((j["h"], j.get("cfg", "repo")) for j in q))
    def prebuild():
        for h, c in hs:
            try: b.native(h, c, False)
            except Exception as e: errors.append(e)
    pt = threading.Thread(target=prebuild); 
    def confirm(j, v):
        key = (j["e"], v["kind"], v["label"]); 
        with lock:
            if key in done_keys: return
        for asan in MODES if v["kind"] == "memory" else MODES[:2]:
            verdict, o = b.replay(j, v["inputs"], asan, limit=40 if asan < 2 else 120)
            if verdict == "fail" or (verdict == "hang" and v["kind"] == "resource"):
                k = match_known(known, j, v)
                with lock:
                    done_keys.add(key)
                    if k: known_hit.setdefault(k["id"], (k, j, v)); return
                    found.append((j, v, o, asan)); return
        with lock: unrep.append({"entry": j["e"], "params": j.get("p", {}), "kind": v["kind"], "label": v["label"], "where": v["where"], "inputs": v["inputs"][:40]})
    def worker():
        while True:
            with lock:
                if stopping or found or errors: return
                if idx[0] >= len(q) or time.time() - t0 > BUDGET: return
                i = idx[0]; idx[0] += 1
            j = q[i]; T = a.time or j.get("T", 60 if tier == "quick" else 900)
            try: r = run_job(b, j, j.get("subst", False), i, T)
            except Exception as e:
                with lock: errors.append(e)
                return
            if a.verbose: print("%-14s %-28s %-40s t=%.1f paths=%s q=%s" % (r.get("status"), j["e"], j.get("p", {}), r.get("time", -1), r.get("paths"), r.get("solver", {}).get("queries")), r.get("note", ""), r.get("unsupported") or "", [(v["kind"], v["label"], v["where"]) for v in r.get("violations", [])][:3] or "", flush=True)
            with lock: res.append((j, r))
            for v in r.get("violations", []):
                if found: break
                try: confirm(j, v)
                except Exception as e:
                    with lock: errors.append(e)
            w = r.get("witnesses", [])[:2 if tier == "quick" else 3]
            for inp in w: 
                if found: break
                try: verdict, o = b.replay(j, inp, False)
                except Exception as e:
                    with lock: errors.append(e)
                    break
                with lock:
                    if verdict == "ok":
                        traces[0] += 1
                        if len(tsamples) < 6 and not any(t["entry"] == j["e"] for t in tsamples): tsamples.append({"entry": j["e"], "params": j.get("p", {}), "inputs": [str(x) for x in inp[:24]], "native": "completed, all assertions hold"})
                    elif verdict == "fail":
                        v = {"kind": "witness", "label": "native run of a completed symbolic path fails", "where": "", "inputs": inp}
                        k = match_known(known, j, v)
                        if k: known_hit.setdefault(k["id"], (k, j, v))
                        else: found.append((j, v, o, False))
                    else: traces[1] += 1
    def phase():
        ts = [threading.Thread(target=worker) for _ in range(ncpu)]; [t.start() for t in ts]
        while any(t.is_alive() for t in ts):
            time.sleep(0.05)
            if (found or errors) and not stopping: killall()
        [t.join() for t in ts]
    pt.start(); phase()
    if errors and not found: raise RuntimeError(str(errors[0]))
    lem_ok = all(r.get("status") == "proved" for j, r in res if j.get("lemma"))
    nosub = []
    if need_lemma and not lem_ok and not found: # the primitives do not meet their specification: decide with the real code instead
        nosub = [dict(j, subst=False, redo=True) for j in q if j.get("subst") and not j.get("lemma")]; res = [(j, r) for j, r in res if not j.get("subst") or j.get("lemma")]
        base = len(q); q.extend(nosub); idx[0] = base; phase()
        if errors and not found: raise RuntimeError(str(errors[0]))
    pt.join()
    return report(a, b, t0, q, res, found, unrep, traces, tsamples, known_hit, lem_ok if need_lemma else None)

def match_known(known, j, v):
    for k in known:
        m = k["match"]
        if m.get("entry") and m["entry"] != j["e"]: continue
        if m.get("label") and m["label"] != v["label"]: continue
        if m.get("where") and m["where"] not in v["where"]: continue
        if "inputs" in m and m["inputs"] != v["inputs"]: continue
        return k
    return None

def report(a, b, t0, q, res, found, unrep, traces, tsamples, known_hit, lem_ok):
    prop, tier = a.prop, a.tier; viol = 0
    for k, j, v in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for j, v, o, asan in found[:1]:
        base = os.path.join(V, "replay"); os.makedirs(base, exist_ok=True); d = tempfile.mkdtemp(prefix=prop + "_", dir=base); viol += 1
        open(os.path.join(d, "inputs.txt"), "w").write("\n".join(map(str, v["inputs"])) + "\n"); open(os.path.join(d, "native_output.txt"), "w").write(o)
        json.dump({"property": prop, "job": {k: j[k] for k in ("h", "e", "p", "cfg") if k in j}, "kind": v["kind"], "label": v["label"], "where": v["where"], "reproduced_with": MODE[asan], "rerun": "python3 /verif/check.py --replay " + d}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("counterexample: entry %s %s, %s: %s at %s" % (j["e"], j.get("p", {}), v["kind"], v["label"], v["where"])); print("native: " + (o.strip().splitlines() or [""])[-1][:300] if not asan else "native: " + "\n".join([l for l in o.splitlines() if "ERROR" in l or "SX-" in l or "Invalid" in l][:3]))
        print("VIOLATION property=%s replay=%s" % (prop, d))
    st = {}; S = {}; paths = trans = instr = 0; funcs = set(); lines = {}; asserts = {}; samples = []; jl = []
    for j, r in res:
        st[r.get("status", "error")] = st.get(r.get("status", "error"), 0) + 1
        for k, v in r.get("solver", {}).items(): S[k] = max(S.get(k, 0), v) if k.startswith("max") else round(S.get(k, 0) + v, 3)
        paths += r.get("paths", 0) + r.get("paths_cut", 0); trans += r.get("forks", 0); instr += r.get("instructions", 0); funcs.update(r.get("functions", []))
        for f, l in r.get("lines", {}).items(): lines.setdefault(f, set()).update(l)
        for l, c in r.get("asserts", {}).items():
            t = asserts.setdefault(l, {"total": 0, "proved": 0, "unknown": 0}); t["total"] += c["total"]; t["proved"] += c["proved"] + c["trivial"]; t["unknown"] += c["unknown"]
        jl.append({"entry": j["e"], "params": j.get("p", {}), "config": j.get("cfg", "repo"), "bounds": j.get("bounds", ""), "substituted_primitives": bool(j.get("subst")), "lemma": bool(j.get("lemma")), "status": r.get("status"), "paths": r.get("paths", 0), "queries": r.get("solver", {}).get("queries", 0), "time_s": r.get("time"), "unsupported": r.get("unsupported", [])})
    skipped = len(q) - len(res)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "violations": viol, "wall_s": round(time.time() - t0, 1),
          "assumptions": JOBS.assumptions(prop),
          "coverage": {"states": paths, "transitions": instr, "traces_validated_against_impl": traces[0], "samples": tsamples,
              "state_meaning": "states = symbolic paths explored; transitions = LLVM instructions executed symbolically; traces_validated_against_impl = concrete inputs of completed symbolic paths replayed on the natively compiled real code with every assertion holding",
              "symbolic_forks": trans, "queries_discharged": S.get("queries", 0), "solver": S, "solver_time_s": S.get("time", 0), "jobs_by_status": st, "jobs_not_run": skipped,
              "all_jobs_decided": set(st) <= {"proved"} and skipped == 0, "primitive_lemmas_proved_this_run": lem_ok, "assertions": asserts, "functions_encoded": sorted(funcs), "repo_lines_executed_symbolically": {os.path.basename(f): len(l) for f, l in sorted(lines.items())}, "jobs": sorted(jl, key=lambda x: (x["entry"], str(x["params"]))), "unreproduced_candidates": unrep, "witness_replays_void": traces[1]}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); f = os.path.join(V, "evidence", prop + ".json"); json.dump(ev, open(f + ".tmp", "w"), indent=1); os.replace(f + ".tmp", f)
    print("%s %s: %d jobs %s, %d paths, %s queries, solver %.1f s, wall %.1f s, %d native traces, %d unreproduced candidates" % (prop, tier, len(res), st, paths, S.get("queries", 0), S.get("time", 0), time.time() - t0, traces[0], len(unrep)))
    return 1 if viol else 0
main()
