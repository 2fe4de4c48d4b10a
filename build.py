#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree: build.py [fast|asan] -> prints the path of the binary.
Every object of the tree's programs is compiled as it is, linked relocatably per program, and the undefined
libc/libcurl/libzstd/libcrypto names listed in sim/redirect.txt are renamed to the simulator's functions."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CSN_REPO", "/repo")
PROGS = [("csn", "csn", "m0"), ("csn-tool", "csntool", "m1"), ("patchdd", "patchdd", "m2")]


def sources():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    t = re.sub(r"#.*", "", t)
    out = {}
    for m in re.finditer(r"add_executable\s*\(\s*([\w.-]+)\s+([^)]*)\)", t):
        out[m.group(1)] = [w for w in m.group(2).split() if w.endswith(".c")]
    return out


def redirects():
    pairs = {}
    for w in open(os.path.join(HERE, "sim/redirect.txt")).read().split():
        a, _, b = w.partition(":")
        pairs[a] = ("simx_" + a, "sim_" + b) if b else ("sim_" + a, None)
    return pairs


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        sys.exit(3)
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build(variant="fast"):
    assert variant in ("fast", "asan", "cov")
    bd = os.path.join(HERE, "build")
    os.makedirs(bd, exist_ok=True)
    with open(os.path.join(bd, "lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(variant, bd)


def prune(bd, pattern):
    # builds a concurrent run may still be about to use stay
    old = sorted(glob.glob(os.path.join(bd, pattern)), key=os.path.getmtime, reverse=True)
    for i, d in enumerate(old):
        if i >= 12 or time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)


def build_locked(variant, bd):
    src = sources()
    repo_files = sorted(glob.glob(os.path.join(REPO, "*.[ch]"))) + [os.path.join(REPO, "CMakeLists.txt")]
    for lst in src.values():
        repo_files += [os.path.join(REPO, f) for f in lst]
    repo_files = sorted(set(f for f in repo_files if os.path.exists(f)))
    sim_files = sorted(glob.glob(os.path.join(HERE, "sim/*")))
    key = tree_hash(repo_files + sim_files + [os.path.abspath(__file__)])
    out = os.path.join(bd, "%s-%s" % (variant, key))
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    prune(bd, variant + "-*")
    os.makedirs(out, exist_ok=True)
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if variant == "asan" else []
    cov = ["--coverage"] if variant == "cov" else []
    # the shim files are shared between builds of different trees: cached by their own hash
    simkey = tree_hash(sim_files + [os.path.abspath(__file__)])
    simdir = os.path.join(bd, "shim-%s-%s" % (variant, simkey))
    if not os.path.exists(simdir):
        prune(bd, "shim-" + variant + "-*")
    os.makedirs(simdir, exist_ok=True)
    jobs = []
    simobjs = []
    for f in sorted(glob.glob(os.path.join(HERE, "sim/*.cpp"))):
        o = os.path.join(simdir, os.path.basename(f) + ".o")
        simobjs.append(o)
        if not os.path.exists(o):
            d = ["-DSIM_ASAN", "-fno-omit-frame-pointer"] if variant == "asan" else []
            jobs.append(["g++", "-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-fno-strict-aliasing"] + d + ["-c", f, "-o", o])
    objs = {}
    for prog, nm, sec in PROGS:
        objs[prog] = []
        for c in src.get(prog, []):
            o = os.path.join(out, nm + "_" + c.replace("/", "_") + ".o")
            objs[prog].append(o)
            jobs.append(["gcc", "-std=gnu11", "-O2" if variant != "asan" else "-O1", "-g", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fvisibility=hidden",
                         "-I" + REPO] + san + cov + ["-c", os.path.join(REPO, c), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    red = redirects()
    maps = os.path.join(out, "syms")
    with open(maps, "w") as f:
        for a, b in red.items():
            f.write("%s %s\n" % (a, b[0]))
    final = []
    unknown = set()
    for prog, nm, sec in PROGS:
        if not objs[prog]:
            sys.stderr.write("no sources for %s in CMakeLists.txt\n" % prog)
            sys.exit(3)
        rel = os.path.join(out, nm + ".o")
        run(["ld", "-r", "-o", rel] + objs[prog])
        rel2 = os.path.join(out, nm + "_r.o")
        run(["objcopy", "--redefine-syms=" + maps, "--redefine-sym", "main=" + nm + "_main", rel, rel2])
        args = ["objcopy", "--keep-global-symbol=" + nm + "_main"]
        hdr = run(["objdump", "-h", "-w", rel2])
        n = 0
        # writable sections get names the simulator can find, so that a process' globals can be reset
        extra = []
        for line in hdr.splitlines():
            w = line.split()
            if len(w) > 3 and w[0].isdigit():
                name = w[1]
                if name == ".data" or name.startswith(".data.") and not name.startswith(".data.rel.ro"):
                    args += ["--rename-section", "%s=%s_data" % (name, sec)]
                elif name == ".bss" or name.startswith(".bss."):
                    args += ["--rename-section", "%s=%s_bss" % (name, sec), "--set-section-flags", "%s=alloc,load,contents" % name]
        if variant != "cov":
            run(args + [rel2, os.path.join(out, nm + "_f.o")])
        else:
            run(["objcopy", "--keep-global-symbol=" + nm + "_main", rel2, os.path.join(out, nm + "_f.o")])
        for line in run(["nm", "-u", os.path.join(out, nm + "_f.o")]).splitlines():
            unknown.add(line.split()[-1])
        final.append(os.path.join(out, nm + "_f.o"))
    known = set(open(os.path.join(HERE, "sim/passthrough.txt")).read().split())
    pre = ("sim_", "simx_", "curl_", "__asan", "__ubsan", "__sanitizer", "__gcov", "EVP_", "ZSTD_", "OSSL_", "ERR_", "CRYPTO_", "SHA")
    rest = sorted(s for s in unknown if s not in known and not s.startswith(pre))
    with open(os.path.join(out, "unmapped"), "w") as f:
        f.write("\n".join(rest))
    if rest:
        sys.stderr.write("note: not redirected by the simulator: %s\n" % " ".join(rest))
    run(["g++", "-no-pie", "-g", "-o", exe + ".tmp"] + ["-Wl,--defsym=%s=%s" % b for b in red.values() if b[1]] + san + cov + simobjs + final + ["-lzstd", "-lcrypto", "-lpthread", "-lm"])
    os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast"]:
        print(build(v))
