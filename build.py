"""Builds the harness binaries from /repo's working tree into /verif/build (content-addressed, in parallel)."""
import concurrent.futures, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")

ENGINE = ["-std=c++17", "-O2", "-g", "-Wall", "-mcx16"]
# instrumented translation units: TSan's pass, but linked against our own runtime
VS = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
      "-mllvm", "-tsan-instrument-read-before-write=1", "-mcx16", "-Wno-deprecated-declarations"]
SEQ = ["-std=c++17", "-O1", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-mcx16", "-Wno-deprecated-declarations"]
DCAS = ["-DBOOST_LOCKFREE_PREFIX_HPP_INCLUDED", "-DBOOST_LOCKFREE_CACHELINE_BYTES=64"]
BATOMIC = ["-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC"]


class CompileError(Exception):
    def __init__(self, cmd, text):
        super().__init__(text)
        self.cmd, self.text = cmd, text


def vs(*parts, extra=()):
    return {"engine": ["pbt", "vsched", "lin"], "flags": VS, "link": ["clang++"], "extra": list(extra), "tus": list(parts)}


def seq(*parts, extra=(), flags=None):
    return {"engine": ["pbt"], "flags": flags or SEQ, "link": ["clang++", "-fsanitize=address,undefined"], "extra": list(extra), "tus": list(parts)}


def vals(f, n):
    return [(f, ["-DVAL=%d" % i]) for i in range(n)]


BINARIES = {}


def _hash_tree(d, h):
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())


_tree = {}


def tree_hash(*dirs):
    if dirs not in _tree:
        h = hashlib.sha256()
        for d in dirs:
            _hash_tree(d, h)
        _tree[dirs] = h.hexdigest()
    return _tree[dirs]


def compile_one(cmd_flags, src, key_dirs):
    compiler = "clang++"
    if cmd_flags and cmd_flags[0] == "g++":
        compiler, cmd_flags = "g++", cmd_flags[1:]
    cmd = [compiler] + cmd_flags + ["-c", src]
    key = hashlib.sha256((" ".join(cmd) + tree_hash(*key_dirs)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "o-" + key + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        if "error:" not in r.stderr:
            raise RuntimeError("compiler failed: " + r.stderr[-2000:])
        raise CompileError(" ".join(cmd), r.stderr)
    with open(dep) as fh:
        if "/usr/include/boost/lockfree" in fh.read():
            raise RuntimeError("the system's boost.lockfree was included instead of " + INC)
    os.unlink(dep)
    os.rename(tmp, out)
    return out


def build(names, jobs=8):
    """returns {name: path}"""
    eng = os.path.join(VERIF, "engine")
    har = os.path.join(VERIF, "harness")
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {}
        todo = []
        for n in names:
            b = BINARIES[n]
            for src, ex_flags in b["tus"]:
                todo.append((("t", n, src, tuple(ex_flags)), b["flags"] + ["-I" + INC] + b["extra"] + ex_flags,
                             os.path.join(VERIF, src), (os.path.join(INC), eng, har)))
            for e in b["engine"]:
                todo.append((("e", e), ENGINE, os.path.join(eng, e + ".cpp"), (eng,)))
        for k, fl, src, dirs in todo:
            if k not in futs:
                futs[k] = ex.submit(compile_one, fl, src, dirs)
        errs = []
        res = {}
        for k, f in futs.items():
            try:
                res[k] = f.result()
            except CompileError as e:
                errs.append(e)
        if errs:
            raise errs[0]
        out = {}
        for n in names:
            b = BINARIES[n]
            objs = [res[("t", n, s, tuple(e))] for s, e in b["tus"]] + [res[("e", e)] for e in b["engine"]]
            key = hashlib.sha256(" ".join(b["link"] + objs).encode()).hexdigest()[:24]
            path = os.path.join(BUILD, n + "-" + key)
            if not os.path.exists(path):
                r = subprocess.run(b["link"] + objs + ["-latomic", "-o", path + ".tmp"] + b.get("libs", []), capture_output=True, text=True)
                if r.returncode != 0:
                    raise RuntimeError("link failed: " + r.stderr[-2000:])
                os.rename(path + ".tmp", path)
            out[n] = path
        return out


BINARIES["conc_queue"] = vs(("harness/conc_queue.cpp", []), *vals("harness/conc_queue_run.cpp", 4))
BINARIES["conc_stack"] = vs(("harness/conc_stack.cpp", []), *vals("harness/conc_stack_run.cpp", 4))
BINARIES["conc_spsc"] = vs(("harness/conc_spsc.cpp", []), *vals("harness/conc_spsc_run.cpp", 6))

BINARIES["conc_queue_dcas"] = vs(("harness/conc_queue.cpp", []), *vals("harness/conc_queue_run.cpp", 4), extra=DCAS)
BINARIES["conc_stack_dcas"] = vs(("harness/conc_stack.cpp", []), *vals("harness/conc_stack_run.cpp", 4), extra=DCAS)

# weak compare-and-swaps may fail for no reason (found by name, so a change of the library that declares that name may not compile)
BINARIES["conc_queue_weak"] = vs(("harness/conc_queue.cpp", []), *vals("harness/conc_queue_run.cpp", 4), extra=["-DVS_SPURIOUS"])
BINARIES["conc_stack_weak"] = vs(("harness/conc_stack.cpp", []), *vals("harness/conc_stack_run.cpp", 4), extra=["-DVS_SPURIOUS"])

BINARIES["seq_queue"] = seq(("harness/seq.cpp", []), ("harness/seq_queue.cpp", []), *vals("harness/seq_queue_run.cpp", 8))
BINARIES["seq_stack"] = seq(("harness/seq.cpp", []), ("harness/seq_stack.cpp", []), *vals("harness/seq_stack_run.cpp", 8))
BINARIES["seq_spsc"] = seq(("harness/seq.cpp", []), ("harness/seq_spsc.cpp", []), *vals("harness/seq_spsc_run.cpp", 8))

_CXX20 = ["-std=c++20", "-ftrivial-auto-var-init=pattern"]
BINARIES["conc_queue_20"] = vs(("harness/conc_queue.cpp", []), *vals("harness/conc_queue_run.cpp", 4), extra=_CXX20)
BINARIES["conc_queue_ba"] = vs(("harness/conc_queue.cpp", []), *vals("harness/conc_queue_run.cpp", 4), extra=BATOMIC + ["-ftrivial-auto-var-init=pattern"])
BINARIES["conc_stack_20"] = vs(("harness/conc_stack.cpp", []), *vals("harness/conc_stack_run.cpp", 4), extra=_CXX20)
BINARIES["conc_stack_ba"] = vs(("harness/conc_stack.cpp", []), *vals("harness/conc_stack_run.cpp", 4), extra=BATOMIC + ["-ftrivial-auto-var-init=pattern"])

PLAIN = ["-std=c++17", "-O1", "-g", "-mcx16", "-Wno-deprecated-declarations", "-fsanitize=undefined", "-fno-sanitize-recover=all"]


def plain(*parts, extra=(), libs=()):
    return {"engine": ["pbt"], "flags": PLAIN, "link": ["clang++", "-fsanitize=undefined"], "extra": list(extra), "tus": list(parts), "libs": list(libs)}


BINARIES["tags_ptr"] = plain(("harness/tags_ptr.cpp", []))
BINARIES["tags_ptr_dcas"] = plain(("harness/tags_ptr.cpp", []), extra=DCAS)
BINARIES["tags_ptr_ba"] = plain(("harness/tags_ptr.cpp", []), extra=BATOMIC)
BINARIES["tags_index"] = plain(("harness/tags_index.cpp", []))
BINARIES["sizes"] = plain(*vals("harness/sizes.cpp", 3))
BINARIES["shm"] = plain(("harness/shm.cpp", []))
BINARIES["convert"] = plain(*[("harness/convert.cpp", ["-DVAL=%d" % v, "-O0"]) for v in range(3)])
BINARIES["reentrant"] = plain(*vals("harness/reentrant.cpp", 3))
BINARIES["crowd"] = plain(("harness/crowd.cpp", ["-O2", "-fno-sanitize=all"]))
BINARIES["addr"] = plain(("harness/addr.cpp", []))
BINARIES["addr_dcas"] = plain(("harness/addr.cpp", []), extra=DCAS)


def native(*first):
    return {"engine": ["pbt"], "flags": list(first) + ["-std=c++17", "-g", "-mcx16", "-Wno-deprecated-declarations", "-pthread"], "link": ["clang++", "-pthread"], "extra": [],
            "tus": [("harness/native.cpp", []), ("harness/native_spsc.cpp", []), ("harness/native_shm.cpp", []), ("harness/native_long.cpp", [])] + [("harness/native_mpmc.cpp", ["-DVAL=%d" % v]) for v in (0, 1, 3, 12)]}


BINARIES["native"] = native("-O2")
BINARIES["native_gcc"] = native("g++", "-O3")

if __name__ == "__main__":
    import time
    t = time.time()
    try:
        for n, p in build(sys.argv[1:] or list(BINARIES)).items():
            print(n, p)
    except CompileError as e:
        print(e.cmd)
        print(e.text[:6000])
        sys.exit(1)
    print("%.1f s" % (time.time() - t))
