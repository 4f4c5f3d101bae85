#!/usr/bin/python3
"""mutate.py LANE SEED LOG: mutation testing of the checks (development tool; no check uses it).
Mutates one token of a scratch copy of /repo at a time, runs the checks its file belongs to from a copy of /verif,
and appends a line per mutant to LOG: killed, survived, nocompile, error."""
import os, random, re, shutil, subprocess, sys, time
LANE, SEED, LOG = sys.argv[1], int(sys.argv[2]), sys.argv[3]
ONLY = sys.argv[4:]
R = "/tmp/mut%s" % LANE
I = "include/richdem/"
FILES = {
    I + "depressions/Barnes2014.hpp": ["P01", "P03", "P04", "P02"], I + "depressions/Zhou2016.hpp": ["P01"], I + "depressions/Wei2018.hpp": ["P01"],
    I + "depressions/Lindsay2016.hpp": ["P05"], I + "depressions/depression_hierarchy.hpp": ["P13", "P14"], I + "depressions/fill_spill_merge.hpp": ["P14"],
    I + "flats/Barnes2014.hpp": ["P06"], I + "flats/flat_resolution.hpp": ["P06"], I + "flats/find_flats.hpp": ["P06"], I + "flats/flat_resolution_dinf.hpp": ["P25"],
    I + "flowmet/d8_flowdirs.hpp": ["P07"], I + "flowmet/dinf_flowdirs.hpp": ["P07"], I + "flowmet/Tarboton1997.hpp": ["P08"], I + "flowmet/Freeman1991.hpp": ["P08"],
    I + "flowmet/Holmgren1994.hpp": ["P08"], I + "flowmet/Quinn1991.hpp": ["P08"], I + "flowmet/OCallaghan1984.hpp": ["P08"], I + "flowmet/Fairfield1991.hpp": ["P08"],
    I + "methods/flow_accumulation.hpp": ["P09"], I + "methods/flow_accumulation_generic.hpp": ["P09"], I + "methods/d8_methods.hpp": ["P10"], I + "methods/dinf_methods.hpp": ["P10"],
    I + "methods/terrain_attributes.hpp": ["P12"], I + "common/Array2D.hpp": ["P15", "P17"], I + "common/Array3D.hpp": ["P15"], I + "common/ManagedVector.hpp": ["P15"],
    I + "common/radix_heap.hpp": ["P16"], I + "common/disjoint_dense_int_set.hpp": ["P16"], I + "common/grid_cell.hpp": ["P16"], I + "tiled/lru.hpp": ["P16"],
    I + "common/Layoutfile.hpp": ["P18"], I + "tiled/A2Array2D.hpp": ["P18"], I + "common/loaders.hpp": ["P17"], "src/gdal.cpp": ["P17"], "src/random.cpp": ["P11"],
    "src/terrain_generation/PerlinNoise.cpp": ["P11"], "src/terrain_generation/terrain_generation.cpp": ["P11"],
    "programs/parallel_priority_flood/main.cpp": ["P19"], "programs/parallel_priority_flood/Barnes2014pf.hpp": ["P19"], "programs/parallel_priority_flood/Zhou2016pf.hpp": ["P19"],
    "programs/parallel_d8_accum/main.cpp": ["P20"], "programs/parallel_d8_accum/perimeters.hpp": ["P20"], I + "misc/misc_methods.hpp": ["P26"],
    "wrappers/pyrichdem/src/pywrapper.hpp": ["P21"], "wrappers/pyrichdem/src/pywrapper.cpp": ["P21"], "wrappers/pyrichdem/richdem/__init__.py": ["P21", "P22"], "wrappers/pyrichdem/richdem/cli.py": ["P22"],
}
import glob
for a in glob.glob("/repo/apps/rd_*.cpp") + ["/repo/apps/router.hpp"]:
    n = os.path.relpath(a, "/repo")
    if not re.search("loop_check|surface_area", n): FILES[n] = ["P23"]
FILES = {f: c for f, c in FILES.items() if os.path.exists("/repo/" + f) and (not ONLY or any(re.search(o, f) for o in ONLY))}
SKIP = re.compile(r"^\s*(//|\*|/\*|#|\"\"\")|RDLOG|progress|Timer|timer|assert|static_assert|std::cerr|printf|template|typename|@|using |^\s*else\s*$|overall|\.start\(|\.stop\(|throw |_WARN|help=|docstring|include")
OPS = [(r"(?<![<>=!-])<=(?!=)", ["<"]), (r"(?<![<>=!-])>=(?!=)", [">"]), (r"(?<![<])<(?![<=a-zA-Z:])", ["<=", ">"]), (r"(?<![<>-])>(?![>=&(:\s*$])", [">=", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\])])\+(?=[\w(])", ["-"]), (r"(?<=[\w\])])-(?=[\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"(?<=[\w\])])\*(?=[\w(])", ["/"]),
       (r"(?<![\w.])(\d+)(?![\w.])", [lambda m: str(int(m.group(0)) + 1), lambda m: str(int(m.group(0)) - 1) if int(m.group(0)) > 0 else "1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"if\((?!constexpr)", ["if(!", ]), (r"\band\b", ["or"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"])]


def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    out, comment = [], False
    for i, l in enumerate(lines):
        if "/*" in l: comment = True
        if comment or SKIP.search(l) or not l.strip():
            if "*/" in l: comment = False
            continue
        code = l.split("//")[0] if not f.endswith(".py") else l.split("#")[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    out.append((i, code[:m.start()] + (r(m) if callable(r) else r) + code[m.end():] + l[len(code):]))
        if re.match(r"^\s+[\w:.()\[\],+\-*/ <>&=!]*;\s*$", code) and re.search(r"[=(]|\+\+|--", code) and not re.match(r"^\s*(return|const|auto|int|double|float|std::|bool|uint|T |U )", code):
            out.append((i, re.match(r"^\s*", code).group(0) + ";"))
    return lines, out


rng = random.Random(SEED)
pool = []
for f in FILES:
    lines, ms = mutants(f)
    rng.shuffle(ms)
    pool.append([f, lines, ms])
seen = set()
if os.path.exists(LOG):
    for l in open(LOG):
        p = l.split("\t")
        if len(p) > 3: seen.add((p[1], p[2], p[3].strip()))
shutil.rmtree(R, ignore_errors=True)
os.makedirs(R)
subprocess.check_call("cp -a /repo/include /repo/src /repo/apps /repo/programs /repo/wrappers %s/; mkdir %s/verif; tar -C /verif --exclude=.git --exclude=.build --exclude=replays -cf - . | tar -C %s/verif -xf -" % (R, R, R), shell=True)
env = dict(os.environ, RICHDEM_REPO=R, PBT_BUILD=R + "/build")
while not os.path.exists("/tmp/stopmut") and any(p[2] for p in pool):
    p = rng.choices(pool, [min(len(q[2]), 300) ** 0.7 for q in pool])[0]
    f, lines, ms = p
    if not ms: continue
    i, new = ms.pop()
    key = (f, str(i + 1), new.strip())
    if key in seen: continue
    seen.add(key)
    L = list(lines)
    L[i] = new
    open(R + "/" + f, "w").write("\n".join(L))
    res, t0 = "survived", time.time()
    for c in FILES[f]:
        try:
            q = subprocess.run([R + "/verif/check", c, "--cap", "200"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700, errors="replace")
        except subprocess.TimeoutExpired:
            res = "timeout " + c
            subprocess.call(["pkill", "-f", R + "/build"])
            break
        if q.returncode == 1 and "VIOLATION" in q.stdout:
            t = re.search(r"fails: (\S+)", q.stdout)
            res = "killed %s %s" % (c, t.group(1) if t else "?")
            break
        if q.returncode == 3 and ("does not compile" in q.stdout or "does not link" in q.stdout):
            res = "nocompile"
            break
        if q.returncode != 0:
            res = "error %s %d" % (c, q.returncode)
            break
    open(LOG, "a").write("%s\t%s\t%d\t%s\t| was: %s\t%.0fs\n" % (res, f, i + 1, new.strip(), lines[i].strip(), time.time() - t0))
    open(R + "/" + f, "w").write("\n".join(lines))
    shutil.rmtree(R + "/build", ignore_errors=True)
shutil.rmtree(R, ignore_errors=True)
