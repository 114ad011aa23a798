#!/usr/bin/env python3
"""Builds the simulation harnesses from the current working tree of the repository.

The repository's sources are compiled with thread-sanitizer instrumentation (the callbacks go to our own
runtime, simrt.cc), linked into one relocatable object whose libc references are renamed to the simulator's
replacements and whose other symbols are made local, and then linked with the uninstrumented simulator.
Objects are cached by the hash of everything that goes into them.
"""
import hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "g++"
INST = ["-O1", "-g", "-std=gnu++17", "-pthread", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
        "-fcf-protection=none", "-fno-pie", "-fno-builtin-printf", "-fno-builtin-fprintf", "-DMASSTREE_SIM=1",
        "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-omit-frame-pointer"]
PLAIN = ["-O2", "-g", "-std=gnu++17", "-pthread", "-Wall", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE"]

LIBJSON = ["json.cc", "string.cc", "straccum.cc", "str.cc", "msgpack.cc", "clp.c", "kvrandom.cc", "compiler.cc", "memdebug.cc", "kvthread.cc"]
KVTREES = ["query_masstree.cc", "value_string.cc", "value_array.cc", "value_versioned_array.cc", "string_slice.cc"]
ROWS = {"bag": [], "array": ["-UMASSTREE_ROW_TYPE_BAG", "-DMASSTREE_ROW_TYPE_ARRAY=1"], "str": ["-UMASSTREE_ROW_TYPE_BAG", "-DMASSTREE_ROW_TYPE_STR=1"],
        "arrayver": ["-UMASSTREE_ROW_TYPE_BAG", "-DMASSTREE_ROW_TYPE_ARRAY_VER=1"]}

TARGETS = {
    # name: (repository sources, instrumented own sources, plain own sources, extra flags, exported symbols)
    "tree": dict(repo=LIBJSON + KVTREES, inst=["ops.cc"], plain=["simrt.cc", "runner.cc", "tree.cc"], row="bag", keep="tr_"),
    "tree_array": dict(repo=LIBJSON + KVTREES, inst=["ops.cc"], plain=["simrt.cc", "runner.cc", "tree.cc"], row="array", keep="tr_"),
    "tree_str": dict(repo=LIBJSON + KVTREES, inst=["ops.cc"], plain=["simrt.cc", "runner.cc", "tree.cc"], row="str", keep="tr_"),
    "rcu": dict(repo=LIBJSON + KVTREES, inst=["ops.cc"], plain=["simrt.cc", "runner.cc", "rcu.cc"], row="bag", keep="tr_"),
    "mtd": dict(repo=["mtd.cc", "log.cc", "checkpoint.cc", "file.cc", "misc.cc", "kvio.cc"] + LIBJSON + KVTREES, inst=["mtdglue.cc"],
                plain=["simrt.cc", "runner.cc", "simos.cc", "mtdsim.cc", "mpclient.cc"], row="bag", keep="mg_", flags=["-Dmain=mtd_main"], os=True),
    "io": dict(repo=["file.cc", "misc.cc", "kvio.cc"] + LIBJSON, inst=["ioglue.cc"],
               plain=["simrt.cc", "runner.cc", "simos.cc", "mpclient.cc", "iosim.cc"], row="bag", keep="ig_", os=True),
}

# libc names redirected for every target
REDIR = """malloc free calloc realloc posix_memalign strdup madvise opendir memcpy memmove memset memcmp memchr abort
fprintf printf perror puts putchar fwrite fputc fputs""".split()
REDIR_SPECIAL = {"__assert_fail": "sim_assert_fail", "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release",
                 "__cxa_guard_abort": "sim_guard_abort"}
for _c in ("w", "a"):
    REDIR_SPECIAL["_Zn%sm" % _c] = "sim_op_n%s" % _c
    REDIR_SPECIAL["_Zn%smRKSt9nothrow_t" % _c] = "sim_op_n%s_nt" % _c
    REDIR_SPECIAL["_Zn%smSt11align_val_t" % _c] = "sim_op_n%s_al" % _c
for _c in ("l", "a"):
    REDIR_SPECIAL["_Zd%sPv" % _c] = "sim_op_d%s" % _c
    REDIR_SPECIAL["_Zd%sPvm" % _c] = "sim_op_d%s_sz" % _c
    REDIR_SPECIAL["_Zd%sPvSt11align_val_t" % _c] = "sim_op_d%s_al" % _c
    REDIR_SPECIAL["_Zd%sPvmSt11align_val_t" % _c] = "sim_op_d%s_szal" % _c

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

_tree_hash = {}
def dir_hash(d, exts=(".cc", ".hh", ".c", ".h", ".def")):
    if d not in _tree_hash:
        h = hashlib.sha256()
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f.endswith(exts) and os.path.isfile(p):
                h.update(f.encode() + b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
        _tree_hash[d] = h.hexdigest()
    return _tree_hash[d]

def config_h():
    p = os.path.join(REPO, "config.h")
    return p if os.path.exists(p) else os.path.join(SIM, "config", "config.h")

def compile_one(src, flags, inputs_hash, outdir):
    key = hashlib.sha256((src + "|" + " ".join(flags) + "|" + inputs_hash).encode()).hexdigest()[:24]
    out = os.path.join(outdir, os.path.basename(src).replace(".", "_") + "." + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def build(names):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    obj = os.path.join(BUILD, "obj")
    cfg = config_h()
    rh = dir_hash(REPO) + hashlib.sha256(open(cfg, "rb").read()).hexdigest()
    shash = dir_hash(SIM)
    headers = hashlib.sha256(b"".join(open(os.path.join(SIM, f), "rb").read() for f in sorted(os.listdir(SIM)) if f.endswith(".h"))).hexdigest()
    # Sources may live in either tree; own instrumented sources include the repository's headers.
    jobs = {}
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        per = {}
        for n in names:
            t = TARGETS[n]
            iflags = INST + ["-include", cfg, "-I", REPO, "-I", SIM] + ROWS[t["row"]]
            lst = []
            for s in t["repo"]:
                fl = iflags + (t.get("flags", []) if s == "mtd.cc" else [])
                if s.endswith(".c"):
                    fl = ["-x", "c++"] + fl
                lst.append(("i", os.path.join(REPO, s), fl, rh))
            for s in t["inst"]:
                lst.append(("i", os.path.join(SIM, s), iflags, rh + headers + hashlib.sha256(open(os.path.join(SIM, s), "rb").read()).hexdigest()))
            for s in t["plain"]:
                lst.append(("p", os.path.join(SIM, s), PLAIN + ["-I", SIM], headers + hashlib.sha256(open(os.path.join(SIM, s), "rb").read()).hexdigest()))
            per[n] = lst
            for k, s, fl, h in lst:
                key = (s, " ".join(fl), h)
                if key not in jobs:
                    jobs[key] = ex.submit(compile_one, s, fl, h, obj)
        objs = {k: f.result() for k, f in jobs.items()}
    out = {}
    for n in names:
        t = TARGETS[n]
        io = [objs[(s, " ".join(fl), h)] for k, s, fl, h in per[n] if k == "i"]
        po = [objs[(s, " ".join(fl), h)] for k, s, fl, h in per[n] if k == "p"]
        key = hashlib.sha256(("|".join(io + po) + open(__file__).read()).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, n + "." + key)
        out[n] = exe
        if os.path.exists(exe):
            continue
        for f in os.listdir(BUILD):
            if f.startswith(n + ".") and not f.endswith(".lock"):
                os.unlink(os.path.join(BUILD, f))
        rel = os.path.join(BUILD, n + ".rel.o")
        sh(["ld", "-r", "--force-group-allocation", "-o", rel] + io)
        redir = dict(REDIR_SPECIAL)
        redir.update({x: "sim_" + x for x in REDIR})
        if t.get("os"):
            for l in open(os.path.join(SIM, "os_redirect.def")):
                l = l.split("#")[0].split()
                if len(l) == 1: redir[l[0]] = "sim_" + l[0]
                elif len(l) == 2: redir[l[0]] = l[1]
        syms = [l.split() for l in sh(["nm", rel]).splitlines()]
        undef = {l[-1] for l in syms if len(l) == 2 and l[0] in "Uw"}
        defd = {l[2] for l in syms if len(l) == 3}
        with open(rel + ".redir", "w") as f:
            for a, b in sorted(redir.items()):
                if a in undef and a not in defd:
                    f.write("%s %s\n" % (a, b))
        with open(rel + ".keep", "w") as f:
            for s in sorted(defd):
                if s.startswith(t["keep"]) or s in ("globalepoch", "active_epoch"):
                    f.write(s + "\n")
        sh(["objcopy", "--redefine-syms=" + rel + ".redir", "--keep-global-symbols=" + rel + ".keep", rel])
        tmp = exe + ".tmp"
        sh([CXX, "-no-pie", "-o", tmp, rel] + po + ["-lm", "-pthread"])
        os.rename(tmp, exe)
        os.unlink(rel); os.unlink(rel + ".redir"); os.unlink(rel + ".keep")
    # drop cached objects that were not used for a while
    files = sorted((os.path.join(obj, f) for f in os.listdir(obj)), key=os.path.getmtime)
    for f in files[:-400]:
        os.unlink(f)
    return out

if __name__ == "__main__":
    names = sys.argv[1:] or list(TARGETS)
    for n, e in build(names).items():
        print(n, e)
