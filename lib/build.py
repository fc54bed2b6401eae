"""Builds everything a check needs from /repo's current working tree.

All outputs live in /verif/build (ignored by git) and are addressed by the
hash of their inputs, so a changed source file is always recompiled.
"""
import glob, hashlib, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout

def lock():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

# --------------------------------------------------------------------------
def engine():
    out = os.path.join(BUILD, "engine")
    run(["make", "-s", "-j%d" % NCPU, "-C", os.path.join(VERIF, "engine"), "OUT=" + out])
    return os.path.join(out, "engine")

def included(src):
    """Contents of the source files that a harness includes"""
    import re
    r = b""
    for n in re.findall(rb'^#include "([^"]*\.cpp)"', read(src), re.M):
        f = os.path.join(os.path.dirname(src), n.decode())
        if os.path.exists(f): r += read(f) + included(f)
    return r

_hh = None
def header_hash():
    """Hash of every header a translation unit might include."""
    global _hh
    if _hh is None:
        files = []
        for root in (REPO + "/include", REPO + "/src", REPO + "/ext", REPO + "/resources", VERIF + "/stubs", VERIF + "/harness"):
            for d, _, fs in os.walk(root):
                for f in fs:
                    if f.endswith((".h", ".hpp", ".inl", ".inc", ".cuh")) or ("/stubs" in d and "." not in f):
                        files.append(os.path.join(d, f))
        _hh = sha(*[x for f in sorted(files) for x in (f, read(f))])
    return _hh

COMMON = ["-std=c++17", "-mf16c", "-DDRJIT_DYNAMIC_LLVM=1", "-DDRJIT_DYNAMIC_CUDA=1", "-DDRJIT_ENABLE_CUDA=1",
          "-DDRJIT_ENABLE_OPTIX=1", "-DLZ4LIB_VISIBILITY=", "-w", "-fPIC"]
INC = ["-I" + VERIF + "/stubs", "-I" + VERIF + "/harness/rt", "-I" + REPO + "/include", "-I" + REPO,
       "-I" + REPO + "/ext/lz4", "-I" + REPO + "/resources"]
# -O1 without vectorisation keeps the IR close to the source; the engine
# interprets it instruction by instruction.
BCFL = ["-O1", "-emit-llvm", "-c", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
        "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-mno-avx"]

def repo_sources():
    src = [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if "metal" not in os.path.basename(f)]
    if not src:
        raise BuildError("no sources in " + REPO)
    return src

def blob(name):
    """The embedded resource that cmake/bin2c.cmake would generate."""
    data = read(os.path.join(REPO, "resources", name + ".lz4"))
    hdr = read(os.path.join(REPO, "resources", "kernels.h")).decode()
    text = '#include "resources/kernels.h"\nconst char %s[] = {%s};\n' % (name, ",".join("(char)0x%02x" % b for b in data))
    out = os.path.join(BUILD, "gen", name + "_" + sha(data, hdr) + ".c")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out + ".tmp", "w") as f:
            f.write(text)
        os.rename(out + ".tmp", out)
    return out

def compile_tu(src, flags, outdir, ext, cxx=None):
    c = src.endswith(".c")
    cc = cxx or ("clang-18" if c else "clang++-18")
    if c and cxx:
        cc = cxx.replace("++", "")
    fl = [f for f in flags if not (c and f.startswith("-std=c++"))]
    key = sha(src, read(src), included(src), header_hash(), cc, *fl)
    out = os.path.join(outdir, os.path.basename(src) + "." + key + ext)
    if not os.path.exists(out):
        os.makedirs(outdir, exist_ok=True)
        tmp = tempfile.mktemp(dir=outdir)
        run([cc] + fl + ["-c", src, "-o", tmp], cwd=outdir)
        os.rename(tmp, out)
    return out

def compile_all(items):
    """items: (src, flags, outdir, ext, cxx) tuples, compiled in parallel, biggest first"""
    items = sorted(items, key=lambda t: -os.path.getsize(t[0]))
    order = {}
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [(t[0], ex.submit(compile_tu, *t)) for t in items]
        return {s: f.result() for s, f in futs}

def compile_items(items):
    """As compile_all, for items that may share source files"""
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda t: compile_tu(*t), items))

def base_items(model=True):
    fl = BCFL + COMMON + ["-I" + VERIF + "/stubs/sym"] + INC
    d = os.path.join(BUILD, "bc")
    items = [(s, fl + ["-DDRJIT_BUILD=1"], d, ".bc", None) for s in repo_sources()]
    items += [(VERIF + "/stubs/nanothread/nanothread.cpp", fl, d, ".bc", None)]
    items += [(f, fl, d, ".bc", None) for f in (REPO + "/ext/lz4/lz4.c", REPO + "/ext/lz4/lz4hc.c", REPO + "/ext/lz4/xxhash.c") if os.path.exists(f)]
    items += [(blob(n), fl, d, ".bc", None) for n in ("kernels_dict", "kernels_75")]
    items += [(VERIF + "/harness/rt/" + f + ".cpp", fl, d, ".bc", None) for f in ("rt_fs", "rt_string", "fakellvm", "jit_setup")]
    return items

def header_items():
    fl = BCFL + COMMON + ["-I" + VERIF + "/stubs/sym"] + INC
    return [(VERIF + "/harness/rt/rt_string.cpp", fl, os.path.join(BUILD, "bc"), ".bc", None)]

def harness_flags(extra=()):
    return BCFL + COMMON + ["-I" + VERIF + "/stubs/sym"] + INC + ["-I" + REPO + "/src"] + list(extra)

def link_bc(objs, tag):
    out = os.path.join(BUILD, "bc", tag + "." + sha(*objs) + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["llvm-link-18"] + objs + ["-o", tmp])
        os.rename(tmp, out)
    return out

def bitcode(harness, base="jit", extra=(), replace=()):
    """Linked module of the whole library (or just the harness) for the engine."""
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    items = base_items() if base == "jit" else header_items()
    items += [(h if not os.path.isabs(h) else h, harness_flags(extra), os.path.join(BUILD, "bc"), ".bc", None) for h in hs]
    done = compile_all(items)
    hobjs = [done[h] for h in hs]
    bobjs = sorted(v for k, v in done.items() if k not in hs)
    b = link_bc(bobjs, "base_" + base)
    return link_bc([b] + hobjs, "mod")

# --------------------------------------------------------------------------
def libllvm():
    for v in ("17", "18", "16", "15"):
        for p in ("/usr/lib/x86_64-linux-gnu/libLLVM-%s.so" % v, "/usr/lib/llvm-%s/lib/libLLVM-%s.so" % (v, v)):
            if os.path.exists(p):
                return os.path.realpath(p)
    raise BuildError("no libLLVM")

def shim():
    """libLLVM with the host CPU pinned to a 4-lane machine, for native replays"""
    src = VERIF + "/stubs/native/llvm_shim.c"
    lib = libllvm()
    out = os.path.join(BUILD, "native", "libLLVM-shim-%s.so" % sha(read(src), lib))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mktemp(dir=os.path.dirname(out))
        run(["gcc", "-shared", "-fPIC", "-O1", src, "-o", tmp, "-Wl,--no-as-needed", lib])
        os.rename(tmp, out)
    return out

def native_flags(variant):
    fl = ["-O1", "-g1", "-ffp-contract=off", "-fno-omit-frame-pointer"] + COMMON
    link = []
    if "asan" in variant:
        fl += ["-fsanitize=address"]
        link += ["-fsanitize=address"]
    sym = [VERIF + "/stubs/sym"] if "model" in variant else [VERIF + "/stubs/native"]
    inc = ["-I" + s for s in sym] + INC
    if "model" in variant:
        fl += ["-DVERIF_NATIVE_MODEL=1"]
    return fl, inc, link

def native_items(base, variant, fl, inc):
    d = os.path.join(BUILD, "native")
    items = []
    if base == "jit":
        items += [(s, fl + inc + ["-DDRJIT_BUILD=1"], d, ".o", None) for s in repo_sources()]
        items += [(VERIF + "/stubs/nanothread/nanothread.cpp", fl + inc, d, ".o", None)]
        items += [(f, fl + inc, d, ".o", None) for f in (REPO + "/ext/lz4/lz4.c", REPO + "/ext/lz4/lz4hc.c", REPO + "/ext/lz4/xxhash.c") if os.path.exists(f)]
        items += [(blob(n), fl + inc, d, ".o", None) for n in ("kernels_dict", "kernels_75")]
        items += [(VERIF + "/harness/rt/jit_setup.cpp", fl + inc, d, ".o", None)]
        if "model" in variant:
            items += [(VERIF + "/harness/rt/rt_fs.cpp", fl + inc, d, ".o", None)]
    items += [(VERIF + "/harness/rt/sym_native.cpp", fl + inc, d, ".o", None)]
    return items

def native(harness, base="jit", extra=(), variant="plain"):
    """Native executable of the same harness: variant plain (system libraries and
    libLLVM), model (the in-memory file system of the engine run), asan."""
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    d = os.path.join(BUILD, "native")
    fl, inc, link = native_flags(variant)
    items = native_items(base, variant, fl, inc)
    items += [(h, fl + inc + ["-I" + REPO + "/src"] + list(extra), d, ".o", None) for h in hs]
    done = compile_all(items)
    objs = sorted(done.values())
    out = os.path.join(d, "prog." + sha(variant, *objs))
    if not os.path.exists(out):
        tmp = tempfile.mktemp(dir=d)
        run(["clang++-18"] + link + objs + ["-rdynamic", "-o", tmp, "-ldl", "-lpthread"])
        os.rename(tmp, out)
    return out

if __name__ == "__main__":
    l = lock()
    engine()
    if len(sys.argv) > 1 and sys.argv[1] == "all":
        items = base_items()
        for v in ("plain", "model"):
            fl, inc, _ = native_flags(v)
            items += native_items("jit", v, fl, inc)
        compile_items(items)
        link_bc(sorted(compile_all(base_items()).values()), "base_jit")
        shim()
