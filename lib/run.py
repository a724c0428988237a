#!/usr/bin/env python3
"""Run one property's check:  run.py C01 [quick|thorough]   (or  run.py C01 replay FILE)

Builds what the check needs from /repo's working tree, explores, writes
evidence/<id>.json and reports.  Exit 0: held on everything explored.  Exit 1
with a VIOLATION line: broken.  Anything else: the check could not run.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from checks import CHECKS

SHIM = os.path.join(VERIF, "shim")
BASE = ["-w", "-DQUICKBOOK_NO_DATES", "-DBOOST_FILESYSTEM_NO_DEPRECATED",
        "-include", os.path.join(SHIM, "boost/core/invoke_swap.hpp"), "-I" + SHIM]
FLAVORS = {
    "plain": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
HEAVY = ["main_grammar", "syntax_highlight", "quickbook", "bb2html", "doc_info_grammar", "actions",
         "code_snippet", "phrase_element_grammar", "block_element_grammar"]


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return "-"


def compile_one(job):
    """Compile src -> obj unless the recorded hashes of everything it read still match."""
    src, obj, cmd = job
    man = obj + ".man"
    key = hashlib.sha1(" ".join(cmd + [src]).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["key"] == key and all(sha(p) == h for p, h in m["deps"].items()):
                return None
        except Exception:
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    txt = open(dep).read().replace("\\\n", " ").split(":", 1)[1]
    deps = {p: sha(p) for p in txt.split() if not p.startswith("/usr")}
    json.dump({"key": key, "deps": deps}, open(man, "w"))
    return None


def objects(spec):
    o = spec.get("objs", "all")
    if o == "all":
        return sorted(f[:-4] for f in os.listdir(SRC) if f.endswith(".cpp"))
    return o


def build(cid, spec):
    flavor = spec.get("flavor", "plain")
    fl = FLAVORS[flavor]
    odir = os.path.join(BUILD, flavor)
    hdir = os.path.join(BUILD, "harness")
    os.makedirs(odir, exist_ok=True)
    os.makedirs(hdir, exist_ok=True)
    jobs = []
    names = objects(spec)
    names.sort(key=lambda n: HEAVY.index(n) if n in HEAVY else 99)
    objs = []
    for n in names:
        cmd = ["g++", "-std=c++11"] + fl + BASE
        if n == "quickbook":
            cmd += ["-Dmain=quickbook_main"]
        cmd += spec.get("objflags", {}).get(n, [])
        tag = "" if n not in spec.get("objflags", {}) else "." + cid
        obj = os.path.join(odir, n + tag + ".o")
        objs.append(obj)
        jobs.append((os.path.join(SRC, n + ".cpp"), obj, cmd))
    hs = spec["harness"] if isinstance(spec["harness"], list) else [spec["harness"]]
    hobjs = []
    for h in hs:
        cmd = ["g++", "-std=c++17"] + fl + BASE + ["-I" + SRC, "-I" + os.path.join(VERIF, "lib")] + spec.get("flags", [])
        obj = os.path.join(hdir, cid + "." + os.path.basename(h) + ".o")
        hobjs.append(obj)
        jobs.insert(1 if len(jobs) else 0, (os.path.join(VERIF, "harness", h), obj, cmd))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise RuntimeError("\n".join(errs))
    exe = os.path.join(hdir, cid)
    libs = spec.get("libs", ["-lboost_program_options", "-lboost_filesystem"])
    r = subprocess.run(["g++"] + [f for f in fl if f.startswith("-fsan")] + spec.get("ldflags", []) + hobjs + objs +
                       ["-o", exe] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if spec.get("objs", "all") != "all":  # something moved between source files: take them all
            return build(cid, dict(spec, objs="all"))
        raise RuntimeError("link failed:\n" + r.stdout[-4000:])
    return exe


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    cid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    spec = CHECKS[cid]
    t0 = time.time()
    env = dict(os.environ, LC_ALL="C", TZ="UTC",
               ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % cid, dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env["VERIF_SCRATCH"] = scratch
    env["VERIF_DIR"] = VERIF
    env["VERIF_REPO"] = REPO
    try:
        exe = build(cid, spec)
        tb = time.time() - t0
        if tier == "replay":
            r = subprocess.run([exe, "--scratch", scratch, "--replay", sys.argv[3]], env=env)
            return r.returncode
        out = os.path.join(scratch, "out.json")
        cmd = [exe, "--scratch", scratch, "--out", out, "--budget",
               str(spec.get("budget", 240) if tier == "quick" else spec.get("tbudget", 800 - tb))]
        if tier == "thorough":
            cmd.append("--thorough")
        cmd += spec.get("args", [])
        r = subprocess.run(cmd, env=env)
        if r.returncode or not os.path.exists(out):
            print("harness for %s did not finish (status %s)" % (cid, r.returncode))
            return 3
        res = json.load(open(out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol, kf = [], {}
    findings = [k for k in known() if k["property"] == cid and k.get("status") == "known"]
    for v in res["violations"]:
        hit = None
        for k in findings:
            if v["case"] in k.get("cases", []) or (k.get("tag") and ("[finding:%s]" % k["tag"]) in v["msg"]):
                hit = k
        if hit:
            kf[hit["id"]] = hit
        else:
            viol.append(v)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s: %s" % (cid, k["id"], k["what"]))
    cov = {k: res[k] for k in ("evaluations", "distinct_nontrivial", "transitions", "states", "exhaustive", "samples")}
    cov["traces_validated_against_impl"] = res["evaluations"]
    cov["rule"] = res["rule"]
    cov["space"] = res["space"]
    cov["bounds"] = spec.get("bounds", {}).get(tier, "")
    cov["not_reproduced_alone"] = res["unconfirmed"]
    cov["build_s"] = round(tb, 2)
    ev = {"property": cid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    print("%s %s: %d cases (space %d, exhaustive=%s), %d distinct non-trivial, %d states, %d transitions, build %.1fs, total %.1fs" % (
        cid, tier, cov["evaluations"], cov["space"], cov["exhaustive"], cov["distinct_nontrivial"], cov["states"],
        cov["transitions"], tb, time.time() - t0))
    if viol:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for v in viol[:6]:
            raw = v["case"].encode("latin1")
            p = os.path.join(rd, "%s-%s.case" % (cid, hashlib.sha1(raw).hexdigest()[:12]))
            open(p, "wb").write(raw)
            print("  %s: %s" % (v["kind"], v["msg"][:1500]))
            print("  case: %r" % raw[:800])
            print("  rerun: python3 lib/run.py %s replay %s" % (cid, p))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print("error: %s" % e)
        sys.exit(3)
