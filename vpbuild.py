"""Builds the stxxl library and the drivers from /repo's working tree with instrumentation."""
import os, re, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
ENV = dict(os.environ, CCACHE_DIR=os.path.join(B, "ccache"), CCACHE_MAXSIZE="6G", CCACHE_COMPILERCHECK="content",
           CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros", LANG="C.UTF-8")
ENV.pop("CCACHE_DISABLE", None)

BASE = ["-std=c++11", "-w", "-g1", "-fno-omit-frame-pointer", "-pthread", "-ftemplate-depth=1024",
        "-DSTXXL_MONITOR_HOOKS=1", "-D_FILE_OFFSET_BITS=64"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,shift,nonnull-attribute,null,object-size", "-fno-sanitize-recover=undefined"]
CONFIGS = {
    # default library configuration: OpenMP and GNU parallel mode on, assertions on
    "asan": dict(flags=BASE + ["-O1", "-fopenmp"] + ASAN, parallel=True, link=ASAN),
    # release configuration (assertions off)
    "nd": dict(flags=BASE + ["-O1", "-fopenmp", "-DNDEBUG"] + ASAN, parallel=True, link=ASAN),
    # no parallel mode
    "seq": dict(flags=BASE + ["-O1"] + ASAN, parallel=False, link=ASAN),
    "tsan": dict(flags=BASE + ["-O1", "-fsanitize=thread"], parallel=False, link=["-fsanitize=thread"]),
    "plain": dict(flags=BASE + ["-O1", "-fopenmp"], parallel=True, link=[]),
}
WRAPS = "read write pread pread64 pwrite pwrite64 lseek lseek64 ftruncate ftruncate64 mmap mmap64 syscall pthread_cond_wait pthread_mutex_lock".split()

def gen_config(cfg):
    """config.h from the repository's template, for the configuration the repository's build uses."""
    par = CONFIGS[cfg]["parallel"]
    on = {"STXXL_HAVE_MMAP_FILE", "STXXL_HAVE_LINUXAIO_FILE", "STXXL_POSIX_THREADS", "STXXL_HAVE_CXX11_RANGE_FOR_LOOP",
          "STXXL_HAVE_SYNC_ADD_AND_FETCH", "STXXL_HAVE_MALLINFO_PROTO", "STXXL_HAVE_MLOCK_PROTO"}
    if par: on |= {"STXXL_PARALLEL", "STXXL_WITH_GNU_PARALLEL"}
    vals = {"STXXL_VERSION_MAJOR": "1", "STXXL_VERSION_MINOR": "4", "STXXL_VERSION_PATCH": "99",
            "STXXL_VERSION_STRING": "1.4.99", "STXXL_VERSION_PHASE": "prerelease/monitor"}
    src = open(os.path.join(REPO, "include/stxxl/bits/config.h.in")).read()
    out = []
    for line in src.split("\n"):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            name, rest = m.group(1), m.group(2)
            if name in on or name in vals:
                rest = re.sub(r"\$\{(\w+)\}|@(\w+)@", lambda k: vals.get(k.group(1) or k.group(2), "1"), rest)
                line = "#define %s %s" % (name, rest.strip() or "1")
            else:
                line = "/* #undef %s */" % name
        else:
            line = re.sub(r"\$\{(\w+)\}|@(\w+)@", lambda k: vals.get(k.group(1) or k.group(2), ""), line)
        out.append(line)
    d = os.path.join(B, "gen", "par" if par else "seq", "stxxl", "bits")
    os.makedirs(d, exist_ok=True)
    f, txt = os.path.join(d, "config.h"), "\n".join(out)
    if not os.path.exists(f) or open(f).read() != txt:
        with open(f + ".tmp%d" % os.getpid(), "w") as fh: fh.write(txt)
        os.rename(f + ".tmp%d" % os.getpid(), f)
    return os.path.join(B, "gen", "par" if par else "seq")

def lib_sources():
    src = []
    for d in ("common", "io", "mng", "algo"):
        p = os.path.join(REPO, "lib", d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp"): src.append(os.path.join(p, f))
    return src

class BuildError(Exception): pass

def compile_one(args):
    src, obj, flags = args
    cmd = ["ccache", "g++"] + flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V, stdin=subprocess.DEVNULL)
    if r.returncode: raise BuildError("compile failed: %s\n%s" % (src, r.stdout.decode("utf8", "replace")[-4000:]))
    return obj

def build(jobs, nthreads=8):
    """jobs: list of (binary name, cfg, [driver sources]) -> {(name,cfg): path}"""
    work, order = {}, []
    bins = {}
    for name, cfg, srcs in jobs:
        gen = gen_config(cfg)
        c = CONFIGS[cfg]
        flags = c["flags"] + ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "harness")]
        od = os.path.join(B, "obj", cfg)
        os.makedirs(od, exist_ok=True); os.makedirs(os.path.join(B, "bin"), exist_ok=True)
        objs = []
        lst = [os.path.join(V, "drivers", s) for s in srcs]
        for h in ("vp_main.cpp", "vp_wrap.cpp", "vp_monitor.cpp"): lst.append(os.path.join(V, "harness", h))
        lst += lib_sources()
        for s in lst:
            o = os.path.join(od, re.sub(r"[^\w]", "_", os.path.relpath(s, "/")) + ".o")
            work.setdefault(o, (s, o, flags)); objs.append(o)
        bins[(name, cfg)] = (os.path.join(B, "bin", name + "." + cfg), objs, c)
    # drivers first: they take longest
    items = sorted(work.values(), key=lambda w: 0 if "/drivers/" in w[0] else 1)
    with ThreadPoolExecutor(nthreads) as ex: list(ex.map(compile_one, items))
    def link(b):
        path, objs, c = b
        tmp = path + ".%d" % os.getpid()
        cmd = ["g++", "-pthread"] + (["-fopenmp"] if c["parallel"] else []) + c["link"] + objs + ["-o", tmp] + \
              ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
        if r.returncode: raise BuildError("link failed: %s\n%s" % (path, r.stdout.decode("utf8", "replace")[-4000:]))
        os.rename(tmp, path)
        return path
    with ThreadPoolExecutor(nthreads) as ex: list(ex.map(link, bins.values()))
    return {k: v[0] for k, v in bins.items()}
