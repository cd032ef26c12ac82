"""Builds the simulator and the simulated node (library sources of /repo + workload)."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")

REDEF = """malloc sim_malloc
free sim_free
calloc sim_calloc
realloc sim_realloc
aligned_alloc sim_aligned_alloc
memalign sim_aligned_alloc
posix_memalign sim_posix_memalign
memcpy sim_memcpy
memmove sim_memmove
memset sim_memset
memcmp sim_memcmp
__memcpy_chk sim_memcpy
__memset_chk sim_memset
__memmove_chk sim_memmove
_Znwm sim_new
_Znam sim_new
_ZnwmRKSt9nothrow_t sim_new_nt
_ZnamRKSt9nothrow_t sim_new_nt
_ZnwmSt11align_val_t sim_new_al
_ZnamSt11align_val_t sim_new_al
_ZdlPv sim_delete
_ZdaPv sim_delete
_ZdlPvm sim_delete_sz
_ZdaPvm sim_delete_sz
_ZdlPvRKSt9nothrow_t sim_delete_nt
_ZdaPvRKSt9nothrow_t sim_delete_nt
_ZdlPvSt11align_val_t sim_delete_al
_ZdaPvSt11align_val_t sim_delete_al
_ZdlPvmSt11align_val_t sim_delete_sz_al
_ZdaPvmSt11align_val_t sim_delete_sz_al
"""

CXX = os.environ.get("CXX", "g++")
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "--param", "tsan-distinguish-volatile=1"]
ASAN = ["-fsanitize=address", "--param", "asan-instrumentation-with-call-threshold=1000000"]
COMMON = ["-std=gnu++14", "-O2", "-g1", "-DNDEBUG", "-fPIC", "-fno-gnu-unique", "-fno-stack-protector", "-w", "-DSTENOS_BUILD_SHARED_LIBRARY", "-Dstenos_EXPORTS"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


REF = os.path.join(HERE, "ref")  # the release other nodes of a mixed system run


def root(flavour):
    return REF if flavour.endswith("ref") else REPO


def sources(flavour):
    r = root(flavour)
    return sorted(glob.glob(r + "/stenos/internal/*.cpp") + glob.glob(r + "/stenos/*.cpp"))


def file_digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h


def repo_files(flavour):
    out = []
    for d, _, fs in os.walk(root(flavour) + "/stenos"):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def config_dir():
    """generated headers: stenos_config.h comes from cmake in a normal build"""
    d = BUILD + "/gen"
    os.makedirs(d + "/stenos", exist_ok=True)
    text = ""
    p = REPO + "/stenos_config.h.in"
    if os.path.exists(p):
        text = open(p).read()
        for k, v in (("PROJECT_VERSION_MAJOR", "0"), ("PROJECT_VERSION_MINOR", "2"), ("PROJECT_VERSION", "0.2"), ("stenos_VERSION_MAJOR", "0"), ("stenos_VERSION_MINOR", "2"), ("stenos_VERSION", "0.2")):
            text = text.replace("@%s@" % k, v)
    for f in (d + "/stenos_config.h", d + "/stenos/stenos_config.h"):
        if not os.path.exists(f) or open(f).read() != text:
            open(f, "w").write(text)
    return d


# flavour: name -> (instrumentation, march, extra)
FLAVOURS = {
    "t": (TSAN, "native", []),
    "a": (ASAN, "native", ["-DSIM_ASAN"]),
    "t_sse2": (TSAN, "x86-64", []),
    "t_sse4": (TSAN, "nehalem", []),
    "t_avx2": (TSAN, "haswell", []),
    "t_copy": (TSAN, "native", []),
    "ref": (TSAN, "native", []),
    "cov": (["--coverage", "-fprofile-update=atomic"], "native", []),
}


def digest(flavour):
    h = file_digest([f for f in repo_files(flavour) + sorted(glob.glob(SIM + "/*.*") + glob.glob(SIM + "/include/*")) if os.path.isfile(f)])
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(flavour.encode())
    h.update(sh([CXX, "-march=native", "-Q", "--help=target"]).encode())
    return h.hexdigest()


def build(flavours, jobs=8, verbose=False):
    """returns {flavour: (exe, lib)}; rebuilds what is out of date"""
    os.makedirs(BUILD, exist_ok=True)
    gen = config_dir()
    # objcopy accepts one source per target in one pass
    passes = []
    for l in REDEF.splitlines():
        for ps in passes:
            if l.split()[1] not in [x.split()[1] for x in ps]:
                ps.append(l)
                break
        else:
            passes.append([l])
    for i, ps in enumerate(passes):
        open(BUILD + "/redef%d.txt" % i, "w").write("\n".join(ps) + "\n")
    out, tasks, links = {}, [], []
    exes = set()
    for fl in flavours:
        kind = "a" if fl == "a" else "cov" if fl == "cov" else "t"
        exe = BUILD + "/sim_" + kind
        d = BUILD + "/" + fl
        lib = d + "/node.so"
        out[fl] = (exe, lib)
        stamp = d + "/stamp"
        dg = digest(fl)
        if os.path.exists(stamp) and open(stamp).read() == dg and os.path.exists(exe) and os.path.exists(lib):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inst, march, extra = FLAVOURS[fl]
        inc = ["-I", SIM + "/include", "-I", SIM, "-I", gen, "-I", root(fl)]
        objs = []
        for s, df in [(s, []) for s in sources(fl)] + [(SIM + "/w_cvec.cpp", c) for c in [[]] + [["-DCVEC_CFG=%d" % i] for i in range(9)]]:
            o = d + "/" + os.path.basename(s) + "".join(df).replace("=", "") + ".o"
            objs.append(o)
            tasks.append([CXX] + COMMON + inst + ["-march=" + march] + extra + df + inc + ["-c", s, "-o", o])
        plain = []
        for s in ("w_codec.cpp", "datagen.cpp"):
            o = d + "/" + s + ".o"
            plain.append(o)
            tasks.append([CXX] + COMMON + ["-march=x86-64"] + extra + inc + ["-c", SIM + "/" + s, "-o", o])
        if exe not in exes:
            exes.add(exe)
            for s in ("sim.cpp", "gen.cpp", "gen_cvec.cpp"):
                tasks.append([CXX, "-std=gnu++17", "-O2", "-g1", "-w", "-fno-omit-frame-pointer", "-fno-threadsafe-statics", "-I", SIM] + (["-DSIM_ASAN"] if kind == "a" else []) + (["-DSIM_NOCHECK"] if kind == "cov" else []) + ["-c", SIM + "/" + s, "-o", exe + "." + s + ".o"])
        links.append((fl, d, exe, objs, plain, stamp, dg, kind))
    # longest first
    tasks.sort(key=lambda t: 0 if t[-3].endswith(("w_cvec.cpp", "stenos.cpp")) else 1)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(sh, tasks))
    for fl, d, exe, objs, plain, stamp, dg, kind in links:
        if kind == "cov":
            sh(["g++", "-shared", "-o", d + "/node.so"] + objs + plain + ["-Wl,-Bsymbolic", "-fno-gnu-unique", "--coverage"])
        else:
            # one relocatable object: library + templates it instantiates; its allocations and block
            # memory functions go to the simulator; everything but the API is local to it
            sh(["ld", "-r", "--force-group-allocation", "-o", d + "/sut.o"] + objs)
            keep = [l.split()[-1] for l in sh(["nm", "--defined-only", d + "/sut.o"]).splitlines() if l.split()[-1].startswith(("stenos_", "_Z8run_cvec"))]
            open(d + "/keep.txt", "w").write("\n".join(keep) + "\n")
            for i in range(len(passes)):
                sh(["objcopy", "--redefine-syms=" + BUILD + "/redef%d.txt" % i, d + "/sut.o"])
            sh(["objcopy", "--keep-global-symbols=" + d + "/keep.txt", d + "/sut.o"])
            sh(["g++", "-shared", "-o", d + "/node.so", d + "/sut.o"] + plain + ["-Wl,-Bsymbolic"])
        if exe in exes:
            exes.discard(exe)
            sh(["g++"] + (["-fsanitize=address"] if kind == "a" else []) + ["-rdynamic", "-o", exe] + [exe + "." + s + ".o" for s in ("sim.cpp", "gen.cpp", "gen_cvec.cpp")] + ["-lzstd", "-ldl", "-lpthread"])
        for o in objs + plain:
            if kind != "cov":
                os.remove(o)
        open(stamp, "w").write(dg)
    return out


if __name__ == "__main__":
    try:
        for k, v in build(sys.argv[1:] or ["t"]).items():
            print(k, *v)
    except BuildError as e:
        print(e)
        sys.exit(3)
