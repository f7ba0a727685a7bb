"""Builds bitcode and native replay programs from /repo's current sources (content-addressed cache in /verif/.cache)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENGINE_DIR = os.path.join(VERIF, "engine")
ENGINE = os.path.join(ENGINE_DIR, "build", "knpsym")
CLANG, CLANGXX = "clang-18", "clang++-18"
LLVM_BIN = "/usr/lib/llvm-18/bin/"

INC = [
    "knp/core-library/include", "knp/core-library/impl", "knp/neuron-traits-library/include", "knp/meta-library/include",
    "knp/synapse-traits-library/include", "knp/base-framework/include", "knp/base-framework/impl", "knp/backends/cpu/cpu-library/include",
    "knp/backends/cpu/cpu-library/impl", "knp/backends/cpu/cpu-devices/include", "knp/backends/cpu/cpu-single-threaded-backend/include",
    "knp/backends/cpu/cpu-multi-threaded-backend/include", "knp/backends/cpu/thread_pool/include",
]
# Source groups: globs below /repo, so that a helper moved to a new file is still found.
GROUPS = {
    "core": ["knp/core-library/impl/*.cpp", "knp/core-library/impl/messaging/**/*.cpp", "knp/core-library/impl/message_bus_cpu_impl/**/*.cpp",
             "knp/core-library/impl/message_bus_zmq_impl/**/*.cpp"],
    "st": ["knp/backends/cpu/cpu-single-threaded-backend/impl/**/*.cpp", "knp/backends/cpu/cpu-library/impl/**/*.cpp"],
    "mt": ["knp/backends/cpu/cpu-multi-threaded-backend/impl/**/*.cpp", "knp/backends/cpu/thread_pool/impl/**/*.cpp", "knp/backends/cpu/cpu-library/impl/**/*.cpp"],
    "pool": ["knp/backends/cpu/thread_pool/impl/**/*.cpp"],
    "devices": ["knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"],  # the branch that is built where Intel PCM is missing
    "devices_x86": ["knp/backends/cpu/cpu-devices/impl/x86_*.cpp"],
    "framework": ["knp/base-framework/impl/*.cpp", "knp/base-framework/impl/data_processing/**/*.cpp", "knp/base-framework/impl/inference_evaluation/**/*.cpp",
                  "knp/base-framework/impl/monitoring/**/*.cpp", "knp/base-framework/impl/network_validation/**/*.cpp", "knp/base-framework/impl/projection/**/*.cpp"],
    "visualizer": ["knp/base-framework/impl/visualizer/**/*.cpp"],
}
DEFS = ["-DNDEBUG", "-DSPDLOG_ACTIVE_LEVEL=6", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED", "-DBOOST_UUID_NO_SIMD", "-DKNP_LIBRARY_NAME=knp", "-DKNP_FULL_LIBRARY_NAME=libknp",
        "-DKNP_LIBRARY_NAME_PREFIX=lib", "-DBOOST_SPIRIT_X3_NO_RTTI"]
CFLAGS = ["-std=c++17", "-O1", "-g0", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-access-control", "-w"]
NATIVE_LIBS = ["-lfmt", "-lspdlog", "-lzmq", "-lboost_filesystem", "-lboost_system", "-lpthread", "-ldl"]
_lock = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:2000], p.stdout[-4000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_fh = {}


def file_hash(p):
    try:
        st = os.stat(p)
        key = (p, st.st_mtime_ns, st.st_size)
        if key not in _fh:
            with open(p, "rb") as f:
                _fh[key] = hashlib.sha256(f.read()).hexdigest()
        return _fh[key]
    except OSError:
        return "missing"


def build_engine():
    sh(["make", "-C", ENGINE_DIR, "-j8", "all"])


def gen_headers():
    fbs = sorted(glob.glob(os.path.join(REPO, "knp/core-library/impl/messaging/fbs/*.fbs")))
    key = sha(*[p + file_hash(p) for p in fbs])
    base = os.path.join(CACHE, "gen_" + key)
    out = os.path.join(base, "knp_gen_headers")
    if not os.path.isdir(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="gen_tmp", dir=CACHE)  # builds run in parallel: each writes its own
        os.makedirs(os.path.join(tmp, "knp_gen_headers"), exist_ok=True)
        # the same command the project's CMake helper runs
        sh(["flatc", "-o", os.path.join(tmp, "knp_gen_headers"), "--include-prefix", "knp_gen_headers", "-I", os.path.dirname(fbs[0]), "-c"] + fbs)
        try:
            os.rename(tmp, base)
        except OSError:
            pass
    return base


def expand(groups):
    files = []
    for g in groups:
        if g in GROUPS:
            for pat in GROUPS[g]:
                files += sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
        else:
            files += [os.path.join(REPO, g)]
    seen, r = set(), []
    for f in files:
        if f not in seen:
            seen.add(f)
            r.append(f)
    return r


def flags(prelude=None, shims=False, extra=()):
    f = []
    if shims:
        f += ["-I", os.path.join(VERIF, "rt", "shim")]
    if prelude:
        f += ["-include", os.path.join(VERIF, "rt", prelude)]
    f += ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]
    f += ["-I" + os.path.join(REPO, i) for i in INC]
    f += ["-I" + gen_headers()]
    return f + DEFS + list(extra)


def cached(tag, src, cmd_of, fl, suffix):
    """Direct-mode cache: an entry lists the dependencies and their hashes."""
    os.makedirs(CACHE, exist_ok=True)
    key = sha(tag, src, *fl)
    idx = os.path.join(CACHE, key + ".idx")
    try:
        with open(idx) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        entries = []
    for e in entries:
        if os.path.exists(e["out"]) and all(file_hash(p) == h for p, h in e["deps"]):
            return e["out"]
    tmp = os.path.join(CACHE, "%s.%d.%d" % (key, os.getpid(), threading.get_ident()))
    sh(cmd_of(tmp + suffix, tmp + ".d"))
    with open(tmp + ".d") as f:
        words = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    deps = [[p, file_hash(p)] for p in sorted(set(os.path.realpath(w) for w in words)) if p.startswith(REPO + "/") or p.startswith(VERIF + "/")]
    out = os.path.join(CACHE, sha(key, json.dumps(deps)) + suffix)
    os.replace(tmp + suffix, out)
    with _lock:
        try:
            with open(idx) as f:
                entries = json.load(f)
        except (OSError, ValueError):
            entries = []
        entries = [e for e in entries if e["out"] != out][-8:] + [{"out": out, "deps": deps}]
        t = idx + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        with open(t, "w") as f:
            json.dump(entries, f)
        os.replace(t, idx)
    return out


def compile_bc(src, fl):
    cc = CLANG if src.endswith(".c") else CLANGXX
    cf_ = list(CFLAGS)
    if src.endswith(".c"):
        cf_ = ["-O1", "-emit-llvm", "-c", "-fno-builtin", "-ffreestanding", "-w"]
        fl = []
    return cached("bc", src, lambda o, d: [cc] + cf_ + fl + ["-MD", "-MF", d, src, "-o", o], fl + cf_, ".bc")


def derived(tag, inputs, suffix, cmd_of):
    key = sha(tag, *[i + file_hash(i) for i in inputs])
    out = os.path.join(CACHE, key + suffix)
    if not os.path.exists(out):
        tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident()) + suffix
        sh(cmd_of(tmp))
        os.replace(tmp, out)
    return out


def build(harness, groups, prelude=None, shims=False, extra=(), pool=None, native=True):
    """Returns (linked bitcode for the engine, native replay program or None, source list)."""
    fl = flags(prelude, shims, extra)
    h = os.path.join(VERIF, "harness", harness)
    srcs = [h] + expand(groups)
    rt = [os.path.join(VERIF, "rt", f) for f in ("symrt.cpp", "symrt_c.c", "symrt_thread.cpp", "symrt_stream.cpp") if os.path.exists(os.path.join(VERIF, "rt", f))]
    own = pool is None
    pool = pool or cf.ThreadPoolExecutor(8)
    rtfl = ["-I" + os.path.join(VERIF, "rt")]
    bcs = list(pool.map(lambda s: compile_bc(s, fl), srcs))
    rts = list(pool.map(lambda s: compile_bc(s, rtfl), rt))
    linked = derived("link2", bcs + rts, ".bc", lambda o: [
        "bash", "-c", "%s -o %s.l %s %s && %s -passes='internalize,globaldce' -internalize-public-api-list='knp_harness,knpsym_rt_*' %s.l -o %s; r=$?; rm -f %s.l; exit $r" % (
            LLVM_BIN + "llvm-link", o, bcs[0], " ".join("--override=" + r if False else r for r in bcs[1:] + rts), LLVM_BIN + "opt", o, o, o)])
    prog = None
    if native:
        nat = os.path.join(VERIF, "rt", "native.cpp")
        if shims:  # mutexes, condition variables and threads of the replay program follow the recorded schedule
            bcs = bcs + [b for f, b in zip(rt, rts) if f.endswith("symrt_thread.cpp")]
        objs = list(pool.map(lambda b: derived("obj", [b], ".o", lambda o: [CLANGXX, "-O1", "-w", "-fPIC", "-ffunction-sections", "-c", b, "-o", o]), bcs))
        nobj = cached("nat", nat, lambda o, d: [CLANGXX, "-std=c++17", "-O1", "-w", "-c", "-MD", "-MF", d] + fl + [nat, "-o", o], fl, ".o")
        prog = derived("prog", objs + [nobj], ".exe", lambda o: [CLANGXX, "-fuse-ld=lld", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", o] + objs + [nobj] + NATIVE_LIBS)
    if own:
        pool.shutdown()
    return linked, prog, srcs


def build_asan(harness, groups, prelude=None, shims=False, extra=()):
    fl = flags(prelude, shims, extra)
    srcs = [os.path.join(VERIF, "harness", harness)] + expand(groups) + [os.path.join(VERIF, "rt", "native.cpp")] + ([os.path.join(VERIF, "rt", "symrt_thread.cpp")] if shims else [])
    san = ["-std=c++17", "-O1", "-g1", "-w", "-c", "-fsanitize=address", "-fno-access-control", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
    with cf.ThreadPoolExecutor(8) as pool:
        objs = list(pool.map(lambda s: cached("asan", s, lambda o, d: [CLANGXX] + san + fl + ["-MD", "-MF", d, s, "-o", o], fl + san, ".o"), srcs))
    return derived("asanprog", objs, ".exe", lambda o: [CLANGXX, "-fuse-ld=lld", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", "-o", o] + objs + NATIVE_LIBS)


def build_tsan(harness, groups, prelude=None, extra=()):
    """The harness on real threads (without the thread model) under ThreadSanitizer."""
    fl = flags(prelude, False, extra)
    srcs = [os.path.join(VERIF, "harness", harness)] + expand(groups) + [os.path.join(VERIF, "rt", "native.cpp")]
    san = ["-std=c++17", "-O1", "-g1", "-w", "-c", "-fsanitize=thread", "-fno-access-control", "-ffp-contract=off"]
    with cf.ThreadPoolExecutor(8) as pool:
        objs = list(pool.map(lambda s: cached("tsan", s, lambda o, d: [CLANGXX] + san + fl + ["-MD", "-MF", d, s, "-o", o], fl + san, ".o"), srcs))
    return derived("tsanprog", objs, ".exe", lambda o: [CLANGXX, "-fuse-ld=lld", "-fsanitize=thread", "-Wl,--unresolved-symbols=ignore-all", "-o", o] + objs + NATIVE_LIBS)


def prune_cache(limit=3 << 30):
    try:
        fs = [(os.stat(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE) if not os.path.isdir(os.path.join(CACHE, f))]
    except OSError:
        return
    total = sum(s.st_size for s, _ in fs)
    for s, p in sorted(fs, key=lambda x: x[0].st_atime):
        if total < limit:
            break
        try:
            os.unlink(p)
            total -= s.st_size
        except OSError:
            pass
