"""Builds the library from /repo/src (current working tree) into /verif/build/<hash>-<variant>/ .

The build directory is a cache keyed by the content of every source file, so a changed tree is always rebuilt."""
import glob, hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)

INC = ["-I/usr/include/tirpc", "-I/usr/include/libxml2"]
LIBS = ["-ltirpc", "-lxml2", "-lyaml", "-ldl", "-lm"]
WARN = ["-w"]
VARIANTS = {
    # what the tests run, plus debug info
    "plain": ("gcc", ["-g", "-O2"]),
    # memory errors become visible failures
    "asan": ("gcc", ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]),
}

class BuildError(Exception):
    pass

def run(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        out = r.stdout.decode(errors="replace")
        raise BuildError("command failed: %s\n%s\n%s" % (" ".join(cmd), "\n".join([l for l in out.splitlines() if "error" in l][:5]), out[-4000:]))
    return r.stdout.decode(errors="replace")

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]

def source_files():
    out = []
    for pat in ("*.c", "*.h", "*.y", "*.l", "*.sh", "*.in"):
        out += glob.glob(os.path.join(SRC, pat))
    return out

def makefile_defs():
    return glob.glob(os.path.join(VERIF, "config", "*.h"))

def atomic_dir(d, fill):
    """Creates directory D by FILL (tmp) unless it is there."""
    if os.path.isdir(d):
        return d
    tmp = "%s.tmp%d" % (d, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    fill(tmp)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d

def inc_dir():
    """Configuration headers and the generated preprocessor library."""
    sh = os.path.join(SRC, "mr_pp.sh")
    def fill(tmp):
        for h in makefile_defs():
            shutil.copy(h, tmp)
        with open(os.path.join(tmp, "mr_pp.h"), "wb") as f:
            subprocess.run(["bash", sh, "256"], stdout=f, check=True)
    d = atomic_dir(os.path.join(BUILD, "inc-" + digest(makefile_defs() + [sh])), fill)
    prune("inc-", 4)
    return d

def include_flags():
    return ["-I" + inc_dir(), "-I" + SRC] + INC

def lib(variant="asan"):
    """Returns (dir, include flags, link inputs) of the library."""
    cc, flags = VARIANTS[variant]
    key = digest(source_files() + makefile_defs(), variant + " ".join(flags))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    inc = include_flags()
    def fill(tmp):
        tinc = ["-I" + tmp] + inc
        srcs = [s for s in glob.glob(os.path.join(SRC, "*.c")) if os.path.basename(s) != "mr_dwarf.c"]
        def gen(f):
            b = os.path.basename(f)[:-2]
            if f.endswith(".y"):
                run(["bison", "-o", os.path.join(tmp, b + ".tab.c"), "--defines=" + os.path.join(tmp, b + ".tab.h"), f], cwd=tmp)
                return os.path.join(tmp, b + ".tab.c")
            run(["flex", "--header-file=" + os.path.join(tmp, b + ".lex.h"), "-o", os.path.join(tmp, b + ".lex.c"), f], cwd=tmp)
            return os.path.join(tmp, b + ".lex.c")
        def comp(s):
            b = os.path.basename(s)[:-2]
            o = os.path.join(tmp, b + ".o")
            extra = ["-ffast-math"] if b == "mr_value" else []
            run([cc] + flags + WARN + extra + ["-DHAVE_CONFIG_H"] + tinc + ["-fPIC", "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            srcs += list(ex.map(gen, glob.glob(os.path.join(SRC, "*.y")) + glob.glob(os.path.join(SRC, "*.l"))))
            srcs.sort(key=lambda s: -os.path.getsize(s))
            objs = list(ex.map(comp, srcs))
        run(["ar", "rcs", os.path.join(tmp, "libmetaresc.a")] + objs)
    atomic_dir(d, fill)
    prune("lib-%s-" % variant, 4)
    return d, inc, [os.path.join(d, "libmetaresc.a")] + LIBS

def prune(prefix, keep):
    ds = sorted((p for p in glob.glob(os.path.join(BUILD, prefix + "*")) if ".tmp" not in p), key=os.path.getmtime)
    for p in ds[:-keep]:
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass

def program(name, sources, variant="asan", defs=(), extra_inputs=(), opt=None):
    """Compiles harness sources against the library; returns the executable's path."""
    cc, flags = VARIANTS[variant]
    if opt:
        flags = [f for f in flags if not f.startswith("-O")] + [opt]
    hdrs = glob.glob(os.path.join(VERIF, "harness", "*.h"))
    key = digest(list(sources) + hdrs + list(extra_inputs) + source_files() + makefile_defs(), variant + " ".join(flags) + " ".join(defs))
    out = os.path.join(BUILD, "bin-%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "harness")] + include_flags()
    libhdrs = [f for f in source_files() if f.endswith((".h", ".sh", ".in"))] + makefile_defs()
    def comp(s):
        # generated schemas hold declarations only: they are compiled fast
        fl = ["-g0", "-O0"] if os.sep + "gen" + os.sep in s else flags
        # an object depends on its source and on headers, not on the library's code
        okey = digest([s] + hdrs + libhdrs, variant + " ".join(fl) + " ".join(defs))
        o = os.path.join(BUILD, "obj-%s-%s.o" % (os.path.basename(s)[:-2], okey))
        if not os.path.exists(o):
            t = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
            run([cc, "-std=gnu11"] + fl + WARN + list(defs) + inc + ["-c", s, "-o", t])
            os.rename(t, o)
        else:
            os.utime(o)
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs = [ex.submit(comp, s) for s in sorted(sources, key=lambda s: -os.path.getsize(s))]
        d, _, link = lib(variant)
        objs = [o.result() for o in objs]
    run([cc] + flags + ["-rdynamic", "-o", os.path.join(tmp, "prog")] + objs + link)
    os.rename(os.path.join(tmp, "prog"), out)
    shutil.rmtree(tmp, ignore_errors=True)
    prune("bin-%s-" % name, 6)
    prune("obj-", 400)
    return out

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(lib(v)[0])
