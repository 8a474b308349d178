#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

Exit 0: held on everything analysed.  Exit 1 + a VIOLATION line: broken.  Exit 2: the
check itself could not do its work (harness does not compile, an expected scenario or
witness is gone, the analyser gave up).
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
ENGINE = os.path.join(VERIF, ".build", "absint")
FROZEN = os.path.join(HERE, "scenarios.json")
INCS = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "asio")]
CXX = ["-std=c++20", "-g", "-w", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=3"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_tu(src, out, flags):
    r = sh([CLANG] + CXX + ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"] + INCS + flags + [src, "-o", out])
    return r.returncode, r.stdout


def analyse(bc, out, scen, extra):
    cmd = [ENGINE, bc, "--json", out] + extra
    for s in scen:
        cmd += ["--scenario", s]
    r = sh(cmd)
    try:
        with open(out) as f:
            return r.returncode, json.load(f), r.stdout
    except Exception:
        return r.returncode, None, r.stdout


def witness(src, comp, flags):
    if comp == "g++":
        cmd = ["g++", "-std=c++20", "-fcoroutines", "-fsyntax-only", "-w", "-fmax-errors=40"] + INCS + flags + [src]
    else:
        cmd = [CLANG, "-fsyntax-only", "-ferror-limit=40"] + CXX + INCS + flags + [src]
    r = sh(cmd)
    return r.returncode, r.stdout


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    freeze = "--freeze" in sys.argv
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    t0 = time.time()
    b = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), ENGINE])
    if b.returncode != 0:
        print("analyser does not build:\n" + b.stdout[-3000:])
        return 2
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        return run(pid, prop, tier, seed, freeze, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, prop, tier, seed, freeze, tmp, t0):
    frozen = json.load(open(FROZEN)) if os.path.exists(FROZEN) else {}
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    errors, violations, knowns, results = [], [], [], []
    wit = {"obligations": 0, "files": []}
    exp = frozen.get(pid, {})
    extra = ["--max-seconds", "240"]
    if tier == "thorough":
        extra = ["--max-seconds", "1500", "--extra-preempt", "1", "--max-states", "40000000"]
    if known:
        extra.append("--all")
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {}
        for h in prop.get("harness", []):
            src = os.path.join(VERIF, "harness", h["file"])
            bc = os.path.join(tmp, h["file"].replace("/", "_") + ".bc")
            futs[ex.submit(compile_tu, src, bc, h.get("flags", []))] = ("tu", h, bc)
        for w in prop.get("witness", []):
            src = os.path.join(VERIF, "harness", w["file"])
            for comp in w.get("compilers", ["clang++", "g++"]):
                futs[ex.submit(witness, src, comp, w.get("flags", []))] = ("wit", w, comp)
                # programs that must be rejected: block i of the file, selected by -DVPFAIL=i
                for i in re.findall(r"^#if VPFAIL == ([1-9]\d*)", open(src).read(), re.M):
                    futs[ex.submit(witness, src, comp, w.get("flags", []) + ["-DVPFAIL=" + i])] = ("neg", w, (comp, i))
        runs = {}
        for f in cf.as_completed(futs):
            kind, h, x = futs[f]
            rc, out = f.result()
            if kind == "neg":
                comp, i = x
                wit["obligations"] += 1
                if rc == 0:
                    src = open(os.path.join(VERIF, "harness", h["file"])).read()
                    what = re.search(r"^#if VPFAIL == %s\b(.*)$" % i, src, re.M).group(1).strip(" /")
                    violations.append({"kind": "must-not-compile", "message": "a program the library has to reject is accepted: " + what, "where": "%s block %s" % (h["file"], i), "scenario": h["file"] + " with " + comp})
                continue
            if kind == "wit":
                src = open(os.path.join(VERIF, "harness", h["file"])).read()
                n = len(re.findall(r"\b(?:WIT|WIT_NOT)\(", re.sub(r"^#define.*$", "", src, flags=re.M))) + sum(
                    len(re.findall(r"\b%s\(" % m.group(1), src)) * len(re.findall(r"\bWIT(?:_NOT)?\(", m.group(2))) - len(re.findall(r"\bWIT(?:_NOT)?\(", m.group(2)))
                    for m in re.finditer(r"^#define (\w+)\([^)]*\) (.*WIT.*)$", src, re.M))
                wit["obligations"] += n
                wit["files"].append("%s (%s): %d obligations" % (h["file"], x, n))
                if n == 0:
                    errors.append("witness file %s holds no obligation" % h["file"])
                if rc != 0:
                    hits = [l for l in out.splitlines() if "VP-WITNESS" in l and ("error" in l)]
                    if hits:
                        for l in hits[:5]:
                            violations.append({"kind": "type-level", "message": l.strip(), "where": h["file"], "scenario": h["file"] + " with " + x})
                    elif REPO in out:
                        l = [l for l in out.splitlines() if "error" in l]
                        violations.append({"kind": "ill-formed-client", "message": "a program the property requires to be well-formed no longer compiles: " + (l[0].strip()[:400] if l else ""), "where": h["file"], "scenario": h["file"] + " with " + x})
                    else:
                        errors.append("witness %s does not compile with %s:\n%s" % (h["file"], x, "\n".join(out.splitlines()[:12])))
                continue
            errs = [l for l in out.splitlines() if " error: " in l]
            if rc != 0 and errs and REPO in out:
                # the client program uses the public interface only: a change in /repo made it ill-formed
                note = [l for l in out.splitlines() if REPO in l and ("error" in l or "note" in l)]
                violations.append({"kind": "ill-formed-client", "message": "a client program the property requires to be well-formed no longer compiles: " + errs[0].strip()[:400],
                                   "where": note[0].strip()[:400] if note else h["file"], "scenario": h["file"] + ":(compile)", "trace": [l.strip()[:300] for l in out.splitlines()[:12]]})
                continue
            if rc != 0:
                errors.append("harness %s does not compile:\n%s" % (h["file"], "\n".join([l for l in out.splitlines() if "error" in l][:8])))
                continue
            names = exp.get(h["file"])
            if freeze or names is None:
                lst = sh([ENGINE, x, "--list"])
                names = [n[8:] for n in lst.stdout.split()]
                if freeze:
                    exp[h["file"]] = names
                else:
                    errors.append("no frozen scenario list for " + h["file"])
            k = max(1, min(h.get("split", 2), len(names)))
            for i in range(k):
                part = names[i::k]
                if part:
                    o = os.path.join(tmp, "%s.%d.json" % (os.path.basename(x), i))
                    e2 = extra + h.get("args", [])
                    runs[ex.submit(analyse, x, o, part, e2)] = (h, part)
        for f in cf.as_completed(runs):
            h, part = runs[f]
            rc, js, out = f.result()
            if js is None:
                errors.append("analyser failed on %s: %s" % (h["file"], out[-1500:]))
                continue
            got = {s["name"][8:]: s for s in js["scenarios"]}
            for n in part:
                if n not in got:
                    errors.append("scenario %s of %s is gone" % (n, h["file"]))
            for n, s in got.items():
                s["file"] = h["file"]
                results.append(s)
                for v in s["violations"]:
                    v["scenario"] = h["file"] + ":" + n
                    k = next((k for k in known if k["scenario"] == n and k["kind"] == v["kind"] and k["where_function"] in v["where"]), None)
                    if k:
                        knowns.append((k, v))
                    else:
                        violations.append(v)
                for m in s["incomplete"]:
                    errors.append("%s:%s not fully analysed: %s" % (h["file"], n, m))
                if not s["violations"] and not s["incomplete"] and s["completed"] == 0:
                    errors.append("%s:%s: no path reaches the end" % (h["file"], n))
                if not s["functions"] and n not in h.get("inlined", []):   # listed: everything analysed is inlined without debug info
                    errors.append("%s:%s analyses no function of the repository" % (h["file"], n))
    if freeze:
        frozen[pid] = exp
        json.dump(frozen, open(FROZEN, "w"), indent=1, sort_keys=True)
    fns = sorted({f for s in results for f in s["functions"]})
    anchors = [a for a in prop.get("anchors", []) if not any(os.path.basename(a) in f for f in fns)]
    for a in anchors:
        if results and not violations:
            errors.append("anchor %s: no function of it was analysed" % a)
    sites = sorted({c for s in results for c in s["check_sites"]})
    tot = lambda k: sum(s[k] for s in results)
    cov = {
        "explanation": ("abstract interpretation of the LLVM IR of /repo's current headers under a most-general client; counts are of this run" if prop.get("harness")
                        else "type-level obligations evaluated by two compilers on /repo's current headers; counts are of this run"),
        "rule": prop["rule"],
        "scenarios": len(results), "abstract_paths": tot("paths"), "abstract_states_deduplicated": tot("states"),
        "paths_pruned_as_covered": tot("pruned"), "paths_to_exit": tot("completed"), "state_splits": tot("forks"),
        "ir_instructions_interpreted": tot("instructions"), "memory_accesses_checked": tot("accesses_checked"),
        "synchronisation_points": tot("sync_points"), "obligations_evaluated": tot("checks"), "obligation_sites": len(sites),
        "repo_functions_analysed": len(fns), "functions": fns[:400],
        "type_level_obligations": wit["obligations"], "type_level_files": wit["files"],
        "samples": [{"scenario": s["file"] + ":" + s["name"], "paths": s["paths"], "completed": s["completed"], "checks": s["checks"]} for s in sorted(results, key=lambda s: s["name"])[:12]],
        "known_findings_reported": len(knowns),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": prop.get("assumptions", []) + ["clang 18 front end and IR lowering are faithful to the C++ source", "models of the standard library and pthread calls in engine/models.inc"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s (%s): %d scenarios, %d abstract paths, %d repo functions, %d obligations at %d sites, %d type-level obligations, %.1fs" % (
        pid, tier, len(results), cov["abstract_paths"], len(fns), cov["obligations_evaluated"], len(sites), wit["obligations"], time.time() - t0))
    for k, v in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
        json.dump(violations, open(rp, "w"), indent=1)
        for v in violations[:6]:
            print("  [%s] %s: %s\n      at %s" % (v["kind"], v["scenario"], v["message"][:300], v["where"][:300]))
            for s in v.get("stack", [])[:8]:
                print("        in " + s[:200])
        for e in errors[:3]:
            print("  note: " + e)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    return 0


sys.exit(main())
