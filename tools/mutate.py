#!/usr/bin/env python3
"""Development tool: mutation survey. tools/mutate.py OUTDIR [--seed N] [--max N] [--files GLOB...]
Makes small changes to /repo's library sources in private copies (mount namespaces), keeps
those that compile and pass the stable tests, and runs every check (few runs) against each of
them. Survivors of both are equivalent changes or gaps; they are listed in OUTDIR/result.txt."""
import os, re, sys, json, random, subprocess, glob, shutil, time, argparse
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--max", type=int, default=400)
ap.add_argument("--files", nargs="*", default=["src/core/*.c", "src/message/*.c", "src/util/*.c", "src/core/*.h", "src/message/*.h", "src/util/*.h", "include/protobluff/core/*.h", "include/protobluff/message/*.h", "include/protobluff/util/*.h"]); ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--runs", type=int, default=6000); ap.add_argument("--worker"); ap.add_argument("--checks", nargs="*", default=[])
a = ap.parse_args()
OPS = [(r"<=", ["<"]), (r"(?<![<>-])<(?![<=])", ["<="]), (r">=", [">"]), (r"(?<![->])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+\+", ["--"]), (r"!(?=[a-z(])", [""]), (r"return 0;", ["return 1;"]), (r"return 1;", ["return 0;"]),
       (r"\bbreak;", ["continue;", ";"]), (r"\bcontinue;", ["break;"]), (r"PB_ERROR_INVALID", ["PB_ERROR_NONE"]), (r"PB_ERROR_ALLOC", ["PB_ERROR_NONE"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
       (r"\b7\b", ["6", "8"]), (r"\b64\b", ["63"]), (r"& ", ["| "]), (r"\.start\b", [".end"]), (r"\.end\b", [".start"]), (r"->start\b", ["->end"]), (r"->end\b", ["->start"]), (r"\.origin\b", [".tag"]), (r"\.tag\b", [".length"]), (r"REPEATED", ["OPTIONAL"]), (r"unlikely_\(", ["!("])]
CCOPS = [(r"is_repeated", ["is_optional"]), (r"is_optional", ["is_required"]), (r"is_required", ["is_optional"]), (r"OPTIONAL", ["REQUIRED"]), (r"(?<=[>.])full_name\(", ["name("]), (r"LowerString", ["UpperString"]), (r"UpperString", ["LowerString"]), (r"is_extension", ["is_repeated"]), (r"index\(\)", ["number()"]), (r"message_type", ["containing_type"]),
         (r"`message`", ["`name`"]), (r"`extension`", ["`message`"]), (r"_put_", ["_erase_"]), (r"_has_", ["_get_"]), (r"_match", ["_put"]), (r"int32", ["uint32"]), (r"continue;", [";"])]
def mutants():
    out = []
    for pat in a.files:
        for p in sorted(glob.glob("/repo/" + pat)):
            f = os.path.relpath(p, "/repo"); cc = f.endswith(".cc"); lines = open(p).read().split("\n"); depth = 0; skip = False; inassert = 0; incomment = False; indebug = 0
            for i, l in enumerate(lines):
                if "#ifndef NDEBUG" in l: indebug = 1
                if indebug:
                    if "#endif" in l: indebug = 0
                    continue
                if l.strip().startswith("/*") or incomment:
                    incomment = "*/" not in l; continue
                if re.match(r"^(pb_\w*dump\w*|dump)\(", l): skip = True
                if inassert or re.match(r"\s*assert\(", l):
                    inassert = ";" not in l; continue
                if l.startswith("}"): depth = 0; skip = False; continue
                if cc: depth = 1
                if not depth and (l.endswith("{") and not l.startswith(" ") or l.endswith(") {")): depth = 1; continue
                if not depth or skip or l.strip().startswith("#"): continue
                code = l.split("/*")[0] if not cc else l
                for rx, reps in OPS + (CCOPS if cc else []):
                    for m in re.finditer(rx, code):
                        for r in reps: out.append((f, i, l, code[:m.start()] + r + code[m.end():] + l[len(code):]))
                if re.match(r"^\s+[\w>.()*&\[\]-]+(\s*[-+|&]?=\s*[^=].*|\(.*\));\s*$", code) and not re.match(r"^\s+(return|const|size_t|int|uint|pb_\w+_t )", code): out.append((f, i, l, "      ;"))
    return out
if a.worker is None:
    os.makedirs(a.out, exist_ok=True); ms = mutants(); random.Random(a.seed).shuffle(ms); ms = ms[:a.max]; print(len(ms), "mutants", flush=True)
    json.dump(ms, open(a.out + "/mutants.json", "w")); ps = []
    shutil.copy(__file__, a.out + "/mutate.py")
    for w in range(a.workers):
        d = f"{a.out}/w{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True); subprocess.run(f"mkdir {d}/verif && cp -a /verif/. {d}/verif/", shell=True, check=True)
        ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec python3 {a.out}/mutate.py {a.out} --worker {w} --workers {a.workers} --runs {a.runs} --checks {' '.join(a.checks)}"], stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT))
    for p in ps: p.wait()
    res = [l for w in range(a.workers) if os.path.exists(f"{a.out}/res{w}") for l in open(f"{a.out}/res{w}")]
    open(a.out + "/result.txt", "w").writelines(sorted(res)); from collections import Counter; print(Counter(l.split("\t")[0] for l in res))
    for w in range(a.workers): shutil.rmtree(f"{a.out}/w{w}", ignore_errors=True)
else:
    w = int(a.worker); ms = json.load(open(a.out + "/mutants.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]; tmp = f"{a.out}/w{w}"; out = open(f"{a.out}/res{w}", "w")
    checks = a.checks or ["P02", "P01", "P05", "P16", "P17", "P12", "P14", "P11", "P10", "P03", "P06", "P07", "P08", "P09", "P13", "P15", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P29", "P04"]
    for n in range(w, len(ms), a.workers):
        f, i, old, new = ms[n]; p = "/repo/" + f; src = open(p).read(); ls = src.split("\n"); assert ls[i] == old; ls[i] = new; open(p, "w").write("\n".join(ls)); verdict = "?"
        try:
            r = subprocess.run(f"cd /repo && make -j2 >/dev/null 2>&1 || exit 1; . /opt/vp/env.sh; timeout 200 bash /opt/vp/test.sh {tmp}/o.json > {tmp}/t.log 2>&1", shell=True)
            if r.returncode == 1 and not os.path.exists(tmp + "/o.json"): verdict = "nocompile"
            else:
                o = set(json.load(open(tmp + "/o.json"))["passed"])
                if [t for t in stable if t not in o]: verdict = "tests"
                elif subprocess.run("bash build.sh > /dev/null 2>&1" + (" && bash bindgen.sh > /dev/null 2>&1" if f.startswith("src/generator") else ""), shell=True).returncode: verdict = "nobuild"
                else:
                    verdict = "SURVIVED"
                    for c in checks:
                        rc = subprocess.run(["timeout", "400", ".build/sim", "check", c, "--runs", str(a.runs), "--seconds", "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={**os.environ, "VERIF_DIR": "/verif", "VERIF_SEED": "1"}).returncode
                        if rc: verdict = f"caught:{c}:{rc}"; break
        except Exception as e: verdict = "error " + repr(e)
        open(p, "w").write(src)
        if os.path.exists(tmp + "/o.json"): os.remove(tmp + "/o.json")
        out.write(f"{verdict}\t{f}:{i+1}\t{old.strip()}\t=>\t{new.strip()}\n"); out.flush()
