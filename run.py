#!/usr/bin/env python3
"""Build the checker of one property from /repo's working tree and run it.

usage: run.py PROPERTY quick|thorough [--suite NAME] [--keep] [--raw]
exit 0: held on everything explored; 1: violation (VIOLATION line printed); 2: the check could not run.
"""
import sys, os, json, glob, hashlib, subprocess, tempfile, shutil, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SBC_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, H)
import props

WRAPS = ["sbc_malloc", "sbc_calloc", "thrd_sleep"]
CC = "gcc"
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,null,alignment", "-fno-sanitize=alignment",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-common"]
BASE = ["-std=gnu11", "-O1", "-g1", "-w", "-fwrapv", "-DPC"]

def sh(cmd, **kw):
    if "-c" in cmd and os.environ.get("SBC_OBJCACHE"): # for tools/mutate.py: objects by their content
        return cached(cmd, os.environ["SBC_OBJCACHE"])
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def cached(cmd, root):
    h = hashlib.sha256(repr([x for x in cmd if not x.endswith(".o")]).encode())
    for f in [cmd[cmd.index("-c") + 1]] + sorted(glob.glob(REPO + "/source/**/*.h", recursive=True) + glob.glob(H + "/*.h")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    o, c = cmd[-1], os.path.join(root, h.hexdigest()[:24] + ".o")
    if os.path.exists(c):
        shutil.copy(c, o)
        return subprocess.CompletedProcess(cmd, 0, "")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not r.returncode:
        shutil.copy(o, c + ".%d" % os.getpid()); os.rename(c + ".%d" % os.getpid(), c)
    return r

def incs():
    s = REPO + "/source"
    return ["-I" + s] + ["-I%s/%s" % (s, d) for d in ("graphics/pc", "graphics", "interpreter", "subsystem", "extension")]

def repo_sources():
    s = REPO + "/source"
    out = []
    for f in sorted(glob.glob(s + "/**/*.c", recursive=True)):
        r = os.path.relpath(f, s)
        if r == "main.c" or r.startswith("graphics/"):
            continue
        out.append(f)
    return out

def tree_hash(extra):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/source/**/*.[ch]", recursive=True) + glob.glob(REPO + "/util/*.[ch]") +
                    glob.glob(H + "/*.[ch]") + glob.glob(H + "/*.py")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def build(prop, cfg):
    key = tree_hash((prop, cfg.get("flags"), cfg.get("wraps"), repr(sorted(cfg.items())), SAN, BASE, open(__file__).read()))
    root = os.path.join(VERIF, ".build")
    exe = os.path.join(root, key, prop)
    if os.path.exists(exe):
        return exe
    d = os.path.join(root, key)
    os.makedirs(d, exist_ok=True)
    jobs = []
    san = cfg.get("san", SAN)                 # of the repository's sources
    osan = cfg.get("own_san", san)            # of the harness and the linked program
    flags = BASE + san + cfg.get("flags", [])
    for f in repo_sources() if not cfg.get("plain") else []:
        o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".o")
        jobs.append(([CC] + flags + ["-include", H + "/prelude.h"] + cfg.get("repo_flags", []) + incs() + ["-c", f, "-o", o], o))
    if cfg.get("main"):                       # the window thread, main() renamed
        o = os.path.join(d, "source_main.c.o")
        jobs.append(([CC] + flags + ["-include", H + "/prelude.h", "-Dmain=sbc_main"] + cfg.get("repo_flags", []) + incs() + ["-c", REPO + "/source/main.c", "-o", o], o))
    if cfg.get("display"):                    # the renderer
        for f in sorted(glob.glob(REPO + "/source/graphics/pc/*.c")):
            o = os.path.join(d, "gfx_" + os.path.basename(f) + ".o")
            jobs.append(([CC] + flags + ["-include", H + "/prelude.h"] + cfg.get("repo_flags", []) + incs() + ["-c", f, "-o", o], o))
    own = ["mc.c"] + cfg.get("own", ["sys.c"]) + [cfg.get("src", prop.lower() + ".c")]
    for f in own:
        o = os.path.join(d, "own_" + f + ".o")
        fl = BASE + (["-O2"] if f == "mc.c" or f in cfg.get("fast", []) else osan) + cfg.get("flags", [])
        jobs.append(([CC] + fl + ["-I" + H] + incs() + ["-c", os.path.join(H, f), "-o", o], o))
    for f in cfg.get("plain", []):            # a program of its own, main() renamed
        o = os.path.join(d, f.replace("/", "_") + ".o")
        jobs.append(([CC] + flags + ["-include", H + "/prelude.h"] + cfg.get("repo_flags", []) + ["-c", REPO + "/" + f, "-o", o], o))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: sh(j[0]), jobs))
    bad = [(j, r) for j, r in zip(jobs, res) if r.returncode]
    if bad:
        for j, r in bad[:3]:
            sys.stderr.write(" ".join(j[0]) + "\n" + r.stdout[-3000:] + "\n")
        return None
    link = [CC] + osan + [j[1] for j in jobs] + ["-o", exe + ".tmp", "-lm", "-lpthread"]
    link += ["-Wl," + ",".join("--wrap=" + w for w in cfg.get("basewraps", WRAPS) + cfg.get("wraps", []))]
    link += cfg.get("ldflags", [])
    r = sh(link)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:] + "\n")
        return None
    os.rename(exe + ".tmp", exe)
    for j in jobs:
        os.unlink(j[1])
    # keep the cache small
    ds = sorted((x for x in glob.glob(root + "/*") if os.path.isdir(x)), key=os.path.getmtime)
    for x in ds[:-60]:
        shutil.rmtree(x, ignore_errors=True)
    return exe

def known(prop):
    """lines of known_findings.txt: property<TAB>suite<TAB>case<TAB>what fails"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            f = l.split("\t")
            if len(f) >= 4 and f[0] == prop:
                out.append(f)
    return out

def main():
    if len(sys.argv) < 3:
        print(__doc__); return 2
    prop, tier = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    t0 = time.time()
    cfg = props.PROPS[prop]
    exe = build(prop, cfg)
    if not exe:
        print("check %s: the checker does not build against this tree" % prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    os.chmod(tmp, 0o755)
    env = dict(os.environ, MC_SCRATCH=tmp, MC_REPO=REPO, LC_ALL="C.UTF-8", TZ="UTC",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:handle_segv=1:intercept_tls_get_addr=0" + cfg.get("asan", ""),
               UBSAN_OPTIONS="print_stacktrace=0")
    kf = known(prop)
    with open(tmp + "/known", "w") as f:
        for k in kf:
            f.write(k[1] + "\t" + k[2] + "\n")
    out = tmp + "/out.json"
    limit = cfg.get("limit_q", 540) if tier == "quick" else cfg.get("limit_t", 800)
    def run(extra):
        cmd = [exe, "--out", out, "--known", tmp + "/known", "--limit", str(limit)] + extra
        if tier != "quick":
            cmd.append("--thorough")
        p = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            d = json.load(open(out))
        except Exception as e:
            d = None
        return p, d
    extra = []
    if "--suite" in rest:
        extra = ["--suite", rest[rest.index("--suite") + 1]]
    p, d = run(extra)
    sys.stderr.write(p.stderr.decode(errors="replace")[-4000:])
    if d is None:
        print("check %s: explorer failed (%s)" % (prop, p.returncode))
        return 2
    confirmed = [v for v in d["violations"] if v["confirmed"]]
    if not confirmed and d["violations"]:
        # history-dependent across cases: decide by two identical single-worker runs
        s = d["violations"][0]["suite"]
        got = []
        for _ in range(2):
            p2, d2 = run(["--suite", s, "--workers", "1"])
            got.append(d2["violations"] if d2 else [])
        if got[0] and got[1] and got[0][0]["case"] == got[1][0]["case"]:
            confirmed = [dict(got[0][0], message=got[0][0]["message"] + " [depends on the preceding cases of the suite]")]
        else:
            sys.stderr.write("unconfirmed: %s\n" % json.dumps(d["violations"][:2])[:2000])
    if "--raw" in rest:
        print(json.dumps(d, indent=1)[:20000])
    seen = set(d["known_seen"])
    for k in kf:
        if k[1] + "\t" + k[2] in seen:
            print("KNOWN-FINDING: property=%s %s (case: %s %s)" % (prop, k[3], k[1], k[2]))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/.build/replay", exist_ok=True)
    rc = 0
    for i, v in enumerate(confirmed):
        rp = "%s/.build/replay/%s_%d" % (VERIF, prop, i)
        with open(rp, "w") as f:
            f.write("suite %s prefix %d subtree %d path %s\n" % (v["suite"], v["prefix"], v["subtree"], v["path"]))
            f.write("# case: %s\n# %s\n# replay: %s --replay %s\n" % (v["case"], v["message"].replace("\n", "\n# "), exe, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  suite %s\n  case  %s\n  %s" % (v["suite"], v["case"][:2000], v["message"][:1500].replace("\n", "\n  ")))
        rc = 1
    ev = {
        "property": prop, "tier": "thorough" if tier != "quick" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": d["states"], "transitions": d["transitions"],
            "traces_validated_against_impl": d["validated"],
            "executions": d["executions"], "evaluations": d["executions"],
            "distinct_nontrivial": d["nontrivial"], "distinct_outcomes": d["outcomes"],
            "rule": d["rule"], "samples": d["samples"], "suites": d["suites"],
            "exhaustive": not d["capped"] and not d["hard_error"] and not d["total_violations"],
            "skipped_outside_space": d["skipped"], "known_finding_hits": d["known_hits"],
            "state_table_full": bool(d["states_table_full"]),
        },
        "assumptions": props.ASSUME + cfg.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    if "--suite" not in rest:
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
            json.dump(ev, f, indent=1)
    if d["capped"] and not rc:
        print("note: time limit reached, exploration incomplete")
        if tier == "quick":
            rc = 0
    if d["hard_error"] and not rc:
        print("check %s: explorer error" % prop)
        rc = 2
    if "-v" in rest:
        for x in d["suites"]:
            print("   %-14s %9d executions %9d states %6.2fs" % (x["name"], x["executions"], x["new_states"], x["wall_s"]))
    print("%s %s: %s executions, %s states, %s transitions, %s validated, %.1fs rc=%d" % (
        prop, tier, d["executions"], d["states"], d["transitions"], d["validated"], time.time() - t0, rc))
    return rc

if __name__ == "__main__":
    sys.exit(main())
