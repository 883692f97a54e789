#!/usr/bin/env python3
"""Runs the check of one property:  run.py PROPERTY [--tier quick|thorough]   or   run.py --replay FILE

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import collections, json, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, HERE)
import build
import table

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:print_legend=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")
JOBS = build.JOBS
KNOWN = os.path.join(VERIF, "known_findings.json")

def gen_schemas(seed, n):
    """Core schema and N random ones; returns (sources, defines)."""
    g = os.path.join(build.BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    py = os.path.join(VERIF, "harness", "gen_schema.py")
    def gen(args, out):
        tmp = out + ".tmp%d" % os.getpid()
        subprocess.run([sys.executable, py] + args + [tmp], check=True)
        os.rename(tmp, out)
        return out
    out = [gen(["core"], os.path.join(g, "core.c"))]
    for i in range(n):
        out.append(gen(["random", str(seed), str(i)], os.path.join(g, "rand%d-%d.c" % (seed, i))))
    return out

def declarations(seed, n):
    """A compiled header with the declarations of all schemas, as a user's program has them."""
    g = os.path.join(build.BUILD, "gen")
    py = os.path.join(VERIF, "harness", "gen_schema.py")
    text = "#include <metaresc.h>\n#include <stdbool.h>\n#include <complex.h>\n"
    for args in [["core"]] + [["random", str(seed), str(i)] for i in range(n)]:
        t = os.path.join(g, "decl.tmp%d" % os.getpid())
        subprocess.run([sys.executable, py] + args + [t + ".c", t + ".h"], check=True)
        with open(t + ".h") as f:
            text += f.read()
        os.unlink(t + ".c")
        os.unlink(t + ".h")
    # what standard headers define
    macros = "#define NULL ((void *)0)\n#define true 1\n#define false 0\n#define bool _Bool\n#define complex _Complex\n#define I (__extension__ 1.0iF)\n"
    def fill(d):
        h = os.path.join(d, "decl.h")
        with open(h + ".in", "w") as f:
            f.write(text)
        # macros of the library take a gigabyte when compiled: expanded declarations are enough
        plain = build.run(["gcc", "-std=gnu11", "-w", "-E", "-P", "-x", "c", h + ".in"] + build.include_flags())
        with open(h, "w") as f:
            f.write(plain + macros)
        build.run(["gcc", "-std=gnu11", "-w", "-O0", "-fPIC", "-x", "c-header", h, "-o", h + ".gch"])
    d = build.atomic_dir(os.path.join(build.BUILD, "decl-" + build.digest([f for f in build.source_files() if f.endswith((".h", ".sh", ".in"))] + build.makefile_defs(), text + macros)), fill)
    build.prune("decl-", 4)
    tmp = os.path.join(build.BUILD, "scratch")
    os.makedirs(tmp, exist_ok=True)
    ENV.update(CINIT_DECL=d, CINIT_TMP=tmp)

def gen_reflect(seed, n):
    """N files of declarations with tables of facts, some with a second user of the same declarations, and an index of tables."""
    g = os.path.join(build.BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    py = os.path.join(VERIF, "harness", "gen_reflect.py")
    srcs = []
    for i in range(n):
        outs = [os.path.join(g, "reflect%d-%d.c" % (seed, i))] + ([os.path.join(g, "reflect%d-%d-again.c" % (seed, i))] if i % 3 == 0 else [])
        tmps = ["%s.tmp%d" % (o, os.getpid()) for o in outs]
        subprocess.run([sys.executable, py, str(seed), str(i)] + tmps, check=True)
        for t, o in zip(tmps, outs):
            os.rename(t, o)
        srcs += outs
    index = os.path.join(g, "reflect-index%d-%d.c" % (seed, n))
    with open(index + ".tmp", "w") as f:
        f.write("#include \"reflect.h\"\n%s\nconst rt_t * const reflect_tables[] = { %s, NULL };\nconst int reflect_parts = %d;\n" %
                ("\n".join("extern const rt_t q%d_reflect[];" % i for i in range(n)), ", ".join("q%d_reflect" % i for i in range(n)), n))
    os.rename(index + ".tmp", index)
    return srcs + [index]

def build_program(prog, seed, tier):
    p = table.PROGRAMS[prog]
    srcs = [os.path.join(VERIF, "harness", s) for s in p["sources"]]
    if p.get("schemas") is not None:
        srcs += gen_schemas(seed, p["schemas"][1 if tier == "thorough" else 0])
    if p.get("reflect") is not None:
        srcs += gen_reflect(seed, p["reflect"][1 if tier == "thorough" else 0])
    if p.get("declarations"):
        declarations(seed, p["schemas"][1 if tier == "thorough" else 0])
    return build.program(prog, srcs, variant=p.get("variant", "asan"), defs=p.get("defs", ()))

def run_part(prop, part, exe, seed, tier, faildir):
    """Runs shards of one generated-input search; returns list of results."""
    count = part[tier]
    guard = part.get("guard", 420 if tier == "quick" else 3000)
    per = (count + JOBS - 1) // JOBS
    ps = []
    for i in range(JOBS):
        start, n = i * per, min(per, count - i * per)
        if n <= 0:
            break
        out = os.path.join(faildir, "out-%s-%d.json" % (part["prop"], i))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--prop", part["prop"], "--seed", str(seed), "--start", str(start), "--count", str(n), "--budget", str(guard),
               "--faildir", faildir, "--out", out, "--max-failures", "1", "--shrink-time", "40"]
        log = open(os.path.join(faildir, "log-%s-%d" % (part["prop"], i)), "wb")
        ps.append((subprocess.Popen(cmd, env=ENV, stdout=log, stderr=log, cwd=faildir), out, log, cmd))
    res = []
    for p, out, log, cmd in ps:
        p.wait()
        log.close()
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError("%s ended with %s: %s" % (" ".join(cmd), p.returncode, open(log.name, errors="replace").read()[-2000:]))
        with open(out) as f:
            res.append(json.load(f))
    return res

def known_for(prop):
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if prop in k["properties"]]

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1", 0) & 0xffffffff
    except ValueError:
        seed = 1
    check = table.CHECKS[prop]
    t0 = time.time()
    faildir = os.path.join(build.BUILD, "fail", prop)
    os.makedirs(faildir, exist_ok=True)
    for f in os.listdir(faildir):
        os.unlink(os.path.join(faildir, f))
    exes = {}
    for part in check["parts"]:
        if part["prog"] not in exes:
            try:
                exes[part["prog"]] = build_program(part["prog"], seed, tier)
            except build.BuildError as e:
                src = refused_declarations(e)
                if not src:
                    raise
                print("VIOLATION property=%s replay=%s" % (prop, src))
                print("  signature: declarations-refused\n  %s" % str(e)[-1500:].replace("\n", "\n  "))
                return 1
    t_build = time.time() - t0
    evaluations = distinct = rejected = flaky = 0
    labels = collections.Counter()
    samples, failures, parts = [], [], []
    for part in check["parts"]:
        tp = time.time()
        res = run_part(prop, part, exes[part["prog"]], seed, tier, faildir)
        hashes = set()
        ev = sum(r["evaluations"] for r in res)
        for r in res:
            hashes.update(r["hashes"])
            labels.update(r["labels"])
            rejected += r["rejected"]
            flaky += r["flaky"]
            for f in r["failures"]:
                f["part"] = part
                failures.append(f)
        ps = [s for r in res for s in r["samples"]]
        samples += ps[:3]
        evaluations += ev
        distinct += len(hashes)
        parts.append({"search": part["prop"], "evaluations": ev, "distinct_nontrivial": len(hashes), "planned": part[tier],
                      "wall_s": round(time.time() - tp, 1), "what": part.get("what", "")})
    known = known_for(prop)
    for k in known:
        if k["status"] == "known":
            state = ""
            if k.get("demo"):
                state = known_demo(k, seed)
            print("KNOWN-FINDING: property=%s %s: %s%s" % (prop, k["id"], k["what"], state))
    viol = []
    for f in sorted(failures, key=lambda f: f["choices"]):
        if f["signature"] not in [v["signature"] for v in viol]:
            viol.append(f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check["level"],
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": check["rule"],
            "samples": [s[:1500] for s in samples[:8]],
            "rejected_by_generator": rejected, "searches": parts,
            "classes": dict(sorted(labels.items(), key=lambda kv: (-kv[1], kv[0]))[:150]),
            "unconfirmed_failures": flaky, "build_s": round(t_build, 1),
        },
        "assumptions": check["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(VERIF, "evidence", prop + ".json")
    with open(out + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(out + ".tmp", out)
    print("%s: %d cases, %d distinct non-trivial, %d rejected, %.1f s (build %.1f s)%s" %
          (prop, evaluations, distinct, rejected, time.time() - t0, t_build, ", %d unconfirmed" % flaky if flaky else ""))
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("  signature: %s\n  %s" % (v["signature"], v["message"][:600].replace("\n", "\n  ")))
    return 1 if viol else 0

def refused_declarations(e):
    """The declarations of a reflection table which the compiler refuses although it accepts the library's header (None otherwise)."""
    src = [w for w in str(e).split() if w.endswith(".c") and os.sep + "gen" + os.sep + "reflect" in w]
    if not src or "error:" not in str(e) or not os.path.exists(src[0]):
        return None
    plain = subprocess.run(["gcc", "-std=gnu11", "-w", "-fsyntax-only", "-include", "metaresc.h", "-x", "c", "/dev/null", "-I" + os.path.join(VERIF, "harness")] + build.include_flags(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return src[0] if plain.returncode == 0 else None

def known_demo(k, seed):
    exe = build_program(k["demo"]["prog"], seed, "quick")
    r = subprocess.run([exe, "--prop", k["demo"]["prop"], "--count", "1", "--no-shrink", "--faildir", os.path.join(build.BUILD, "fail")],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return "" if r.returncode == 1 else " [demonstration no longer fails]"

def replay(path):
    with open(path) as f:
        prop = f.readline().split()[2]
    seed = 1
    for l in open(path):
        if l.startswith("seed "):
            seed = int(l.split()[1])
    for c in table.CHECKS.values():
        for part in c["parts"]:
            if part["prop"] == prop:
                exe = build_program(part["prog"], seed, os.environ.get("VERIF_TIER", "quick"))
                return subprocess.run([exe, "--replay", path] + sys.argv[3:], env=ENV).returncode
    return 2

if __name__ == "__main__":
    try:
        sys.stdout.reconfigure(line_buffering=True)
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
