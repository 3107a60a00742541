"""Compile /repo's current working tree to LLVM bitcode and dump it as JSON.

Everything is written under a scratch cache outside /repo; the cache key is the
content of the whole source tree plus the tools, so a stale result is never used.
"""
import hashlib, json, os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(ROOT, ".cache"))
CLANG = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"

CONFIGS = {
    # name: (extra defines, undefs applied to config.h)
    "main": (["-DG_DISABLE_ASSERT", "-DG_DISABLE_CAST_CHECKS"], {}, []),
    "uninit": (["-DG_DISABLE_ASSERT", "-DG_DISABLE_CAST_CHECKS"], {}, []),
    "asserts": (["-DG_DISABLE_CAST_CHECKS"], {}, []),
    "fallback": (["-DG_DISABLE_ASSERT", "-DG_DISABLE_CAST_CHECKS"],
                 {"HAVE_EVENTFD": None, "HAVE_LIBURING": None},
                 ["dex-uring-aio-backend.c", "dex-uring-future.c"]),
}

class BuildError(Exception):
    pass

def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def tree_files():
    out = []
    for base in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                out.append(os.path.join(d, f))
    for f in ("meson.build", "meson_options.txt"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")

def tool():
    src = os.path.join(ROOT, "tools", "irdump.cpp")
    key = _h([src])
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "irdump-" + key)
    if not os.path.exists(exe):
        cx = subprocess.check_output(["llvm-config", "--cxxflags"]).decode().split()
        ld = subprocess.check_output(["llvm-config", "--ldflags", "--libs", "core", "irreader", "linker", "passes", "support"]).decode().split()
        tmp = exe + ".%d" % os.getpid()
        run(["clang++", "-O1"] + cx + ["-std=c++17", src, "-o", tmp] + ld)
        os.rename(tmp, exe)
    return exe

def compdb(work):
    """configure /repo in a scratch directory and return the compile commands
    of the library's own sources"""
    bd = os.path.join(work, "mb")
    env = dict(os.environ)
    for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(k, None)
    env["CC"] = "/usr/bin/gcc"
    base = ["meson", "setup", bd, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload", "-Dwerror=false",
            "-Dtests=false", "-Dexamples=false", "-Dintrospection=disabled", "-Dvapi=false",
            "-Dliburing=enabled", "-Deventfd=enabled", "-Dsysprof=false", "-Ddocs=false"]
    run(base, env=env)
    db = json.load(open(os.path.join(bd, "compile_commands.json")))
    out = {}
    for e in db:
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if not f.endswith(".c"):
            continue
        toks = shlex.split(e["command"])
        flags = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.startswith("-I") or t.startswith("-D") or t.startswith("-U") or t.startswith("-std="):
                if t in ("-I", "-D", "-U"):
                    flags += [t, toks[i + 1]]; i += 1
                else:
                    flags.append(t)
            elif t in ("-isystem", "-include"):
                flags += [t, toks[i + 1]]; i += 1
            i += 1
        out[f] = (e["directory"], flags)
    if not out:
        raise BuildError("no C sources in compile_commands.json")
    return bd, out

def build(config="main", keep=None):
    """returns path of the JSON dump for `config` of the current tree"""
    defs, undef, skip = CONFIGS[config]
    keepf = keep or os.path.join(HERE, "keep.txt")
    key = _h(tree_files() + [os.path.join(ROOT, "tools", "irdump.cpp"), os.path.join(HERE, "prelude.h"),
                             os.path.abspath(__file__), keepf]) + "-" + config
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "ir-" + key + ".json")
    if os.path.exists(out):
        return out
    exe = tool()
    work = tempfile.mkdtemp(prefix="sa-build-")
    try:
        bd, db = compdb(work)
        if undef:
            p = os.path.join(bd, "config.h")
            s = open(p).read().splitlines()
            s = [l for l in s if not any(l.startswith("#define %s" % k) for k in undef)]
            open(p, "w").write("\n".join(s) + "\n")
        jobs = []
        for f, (d, flags) in sorted(db.items()):
            if os.path.basename(f) in skip:
                continue
            o = os.path.join(work, os.path.basename(f) + ".bc")
            # absolute include dirs first seen relative to the build dir
            jobs.append((d, [CLANG, "-c", "-emit-llvm", "-O0", "-g", "-fno-discard-value-names", "-w",
                             "-Xclang", "-disable-O0-optnone", "-fno-strict-aliasing",
                             "-include", os.path.join(HERE, "prelude.h")] + flags + defs + [f, "-o", o], o))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j[1], cwd=j[0]), jobs))
        tmp = out + ".%d" % os.getpid()
        run(([] if config != "uninit" else ["env", "IRDUMP_UNINIT=1"]) + [exe, tmp, keepf] + [j[2] for j in jobs])
        os.rename(tmp, out)
        # keep the cache small
        ents = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("ir-")), key=os.path.getmtime)
        for e in ents[:-24]:
            try: os.unlink(e)
            except OSError: pass
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    for c in sys.argv[1:] or ["main"]:
        print(build(c))
