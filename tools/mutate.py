#!/usr/bin/env python3
"""Systematic mutation of the repository (development tool; no check uses it).

usage: mutate.py OUT.txt SEED COUNT FILE...     (FILE relative to /repo, COUNT mutants per file)
Every mutant that compiles and passes the stable tests is given to the checks of its file until one catches it.
"""
import sys, os, re, random, subprocess, shutil, json, time
MAP = {
 "interpreter/arrays.c":"C08 C09 C24 C06 C22", "interpreter/data.c":"C10 C05 C22", "interpreter/flow.c":"C03 C05 C22 C21", "interpreter/label.c":"C03 C10 C05 C21 C22",
 "interpreter/mathptc.c":"C26 C01 C22", "interpreter/operators.c":"C01 C07 C06 C22", "interpreter/program.c":"C05 C22 C12 C19 C21", "interpreter/runner.c":"C01 C03 C05 C10 C22 C21",
 "interpreter/stack.c":"C01 C22 C06", "interpreter/strfuncs.c":"C07 C06 C22", "interpreter/strs.c":"C07 C06 C02 C11 C10 C12 C22", "interpreter/tokens.c":"C01 C05 C03 C02 C10 C22 C21",
 "interpreter/vars.c":"C04 C06 C08 C05 C22", "system.c":"C04 C22 C19 C21 C13", "error.c":"C22", "timers.c":"C14 C29",
 "subsystem/background.c":"C15 C27 C22", "subsystem/console.c":"C11 C12 C22", "subsystem/graphics.c":"C16 C22 C27", "subsystem/input.c":"C14 C12 C29 C13", "subsystem/panel.c":"C25 C12 C27 C13",
 "subsystem/resources.c":"C23 C19 C24 C27 C22", "subsystem/sprites.c":"C17 C18 C22 C27", "subsystem/sysvars.c":"C22 C14 C25", "subsystem/variables.c":"C04 C22 C06 C05",
 "extension/compress.c":"C20 C19", "extension/sbc_blockalloc.c":"C24 C22", "extension/sbc_memory.c":"C24 C22 C27",
 "graphics/pc/display_pc.c":"C27", "graphics/pc/graphic.c":"C27", "graphics/pc/sprite.c":"C27", "graphics/pc/tilemap.c":"C27", "main.c":"C29 C13", "util/ntr_to_ptc.c":"C28",
}
OPS = [(r"(?<![<>=!-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\])]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w\])]) - (?=[\w(])", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]),
       (r"(?<=[\w\])]) \* (?=[\w(])", [" / "]), (r"(?<=[\w\])]) / (?=[\w(])", [" * "]), (r"(?<=[\w\])]) % (?=[\w(])", [" / "]), (r"<<", [">>"]), (r">>", ["<<"]),
       (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]), (r"(?<![\w.])0x[0-9a-fA-F]+(?!\w)", ["+1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![&\w])&(?![&\w])", ["|"]), (r" \| ", [" & "]), (r"\bif \((?=.*\)\s*\{?$)", ["if (!"]), ]
def sites(path, text):
    out, off, depth_skip = [], False, []
    stack = []
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("#if"): stack.append(bool(re.search(r"ARM9|EZ80|DEBUG|NDEBUG", s)) and "ifndef" not in s)
        elif s.startswith("#else") and stack: stack[-1] = not stack[-1] if "PC" not in s else stack[-1]
        elif s.startswith("#endif") and stack: stack.pop()
        if s.startswith("#") or any(stack) or s.startswith("//") or s.startswith("*") or s.startswith("/*") or "iprintf" in s or "assert" in s or "ABORT" in s or "printf(" in s: continue
        code = l.split("//")[0]
        strs = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])+\'', code)]
        def instr(a): return any(x <= a < y for x, y in strs)
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if instr(m.start()): continue
                for r in reps:
                    t = m.group()
                    if r in ("+1", "-1"):
                        v = int(t, 0) + int(r)
                        if v < 0: continue
                        new = str(v)
                    elif r == "if (!": 
                        e = code.rstrip(); e = e[:-1].rstrip() if e.endswith("{") else e
                        if not e.endswith(")") or e.count("(") != e.count(")"): continue
                        out.append((n, l, code[:m.start()] + "if (!" + code[m.start()+3:len(e)] + ")" + code[len(e):])); continue
                    else: new = r
                    out.append((n, l, l[:m.start()] + new + l[m.end():]))
        if re.match(r"^\t+[\w\->\[\].() *+&]+(=|\+=|\()[^{}]*;\s*$", code) and not re.match(r"^\t+(return|break|case|continue|goto|int |u\d+ |s\d+ |char |fixp |struct |bool |const |void |static |unsigned )", code):
            out.append((n, l, re.match(r"^\t+", code).group() + ";"))
    return out
def main():
    outf, seed, count, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    d = "/tmp/mut%d" % os.getpid()
    cache = "/tmp/mutcache"; os.makedirs(cache, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, SBC_REPO=d, SBC_OBJCACHE=cache)
    log = open(outf, "a")
    jobs = []
    for f in files:
        p = d + "/" + f; text = open(p).read(); ss = sites(p, text)
        random.Random(seed * 1000003 + len(f)).shuffle(ss)
        jobs += [(f, s) for s in ss[:count]]
    for f, (n, old, new) in jobs:
        p = d + "/" + f; text = open(p).read(); ls = text.split("\n"); ls[n] = new
        open(p, "w").write("\n".join(ls)); t0 = time.time(); res = None
        try:
            if not f.startswith("util"):
                src = d + "/source"
                inc = ["-I" + src] + ["-I%s/%s" % (src, x) for x in ("graphics/pc", "graphics", "interpreter", "subsystem", "extension")]
                c = subprocess.run(["gcc", "-std=gnu11", "-w", "-DPC", "-fsyntax-only"] + inc + [p], capture_output=True)
                if c.returncode: continue
            if f != "source/main.c" and not f.startswith("util") and "graphics/pc" not in f:
                if not tests_pass(d, base["stable"]): res = "tests"
            if res is None:
                for prop in MAP[f.replace("source/", "")].split():
                    try: r = subprocess.run(["python3", os.environ.get("MUT_VERIF", "/verif") + "/run.py", prop, "quick"], env=env, capture_output=True, text=True, errors="replace", timeout=600)
                    except subprocess.TimeoutExpired: res = prop + " timeout"; break
                    if r.returncode == 1: res = prop; break
                    if r.returncode: res = prop + " rc%d" % r.returncode; break
            log.write("%s\t%s:%d\t%.0fs\t%s\t=>\t%s\n" % (res or "SURVIVES", f, n + 1, time.time() - t0, old.strip(), new.strip())); log.flush()
        finally:
            open(p, "w").write(text)
    shutil.rmtree(d)
def tests_pass(d, stable):
    t = "cd %s; export HOME=/root LC_ALL=C.UTF-8 TZ=UTC; rm -f test tests/data/MSAVTST.PTC; make --no-print-directory -j8 -f /opt/vp/repo.mk BUILD=_build/ CC=gcc -o csfml -o _build/csfml -o util/external/CSFML/lib/libcsfml-system.so test && python3 /opt/vp/run_tests.py %s.json; rm -f gmon.out tests/data/MSAVTST.PTC" % (d, d)
    try: r = subprocess.run(["bash", "-c", t], capture_output=True, timeout=300)
    except subprocess.TimeoutExpired: return False
    try: res = json.load(open(d + ".json")); os.unlink(d + ".json")
    except Exception: return False
    return set(stable) <= set(res["passed"])
main()
