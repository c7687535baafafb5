#!/usr/bin/env python3
"""Builds verificarlo from /repo's *working tree* into /verif/build (git-ignored).

The tree is copied to a scratch folder and compiled directly (no autotools: a
from-scratch configure costs 90 s), with the flags of the project's Makefile.am
files.  Products are cached by the content hash of every source file that goes
into them, so an edited tree is always rebuilt and an unedited one is not.

Variants:
  std   the toolchain as installed for users (bin/ lib/ include/)
  asan  backends + support libraries with AddressSanitizer and UBSan (gcc)
  tsan  idem with ThreadSanitizer (gcc)
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"
CLANGXX = LLVM + "/bin/clang++"
LLVM_CPPFLAGS = ("-I%s/include -std=c++17 -fno-exceptions -funwind-tables -D_GNU_SOURCE "
                 "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS" % LLVM).split()

BACKENDS = {  # dir, lib, opt level, has a no-tls twin, hashmap
    "ieee": ("interflop-backend-ieee", "-O3", False),
    "mca": ("interflop-backend-mcaquad", "-Og", True),
    "mca_int": ("interflop-backend-mcaint", "-O3", True),
    "vprec": ("interflop-backend-vprec", "-O3", False),
    "bitmask": ("interflop-backend-bitmask", "-O3", True),
    "cancellation": ("interflop-backend-cancellation", "-Og", True),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def source_files():
    """Every tracked or untracked-but-not-ignored file of the build, as relative paths."""
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co",
                          "--exclude-standard"], stdout=subprocess.PIPE, check=True).stdout
    res = []
    for f in out.decode().split("\0"):
        if not f:
            continue
        if f.startswith(("src/", "verificarlo")) or f == "VERSION":
            if os.path.isfile(os.path.join(REPO, f)):
                res.append(f)
    return sorted(set(res))


def tree_hash(pred=lambda f: True, salt=""):
    h = hashlib.sha256(salt.encode())
    for f in source_files():
        if not pred(f):
            continue
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def copy_tree(dst):
    for f in source_files():
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, f), d)


def _lib_jobs(src, out, cc, base, opt=None):
    """(output, cmd-list) pairs for the support libraries and backends, as shared objects."""
    std = os.path.join(src, "src/interflop-stdlib")
    inc = os.path.join(out, "include")
    lib = os.path.join(out, "lib")
    o = lambda lvl: [opt or lvl]
    common = base + ["-fPIC", "-shared", "-g", "-fno-stack-protector", "-I", std]
    rp = ["-L" + lib, "-Wl,-rpath," + lib, "-Wl,-z,nodelete"]
    cs = lambda d: sorted(glob.glob(os.path.join(std, d, "*.c")))
    stage1 = [
        [cc] + common + o("-O3") + ["-I", inc] + sorted(glob.glob(std + "/*.c")) + ["-o", lib + "/libinterflop_stdlib.so"],
        [cc] + common + o("-O3") + ["-I", inc] + cs("rng") + ["-o", lib + "/libinterflop_rng.so"],
        [cc] + common + o("-O3") + ["-DHAS_QUADMATH", "-I", inc] + cs("fma")
        + ["-o", lib + "/libinterflop_fma.so", "-lm"] + ["-lquadmath"],
        [cc] + common + o("-O3") + ["-I", inc] + cs("hashmap") + ["-o", lib + "/libinterflop_hashmap.so"],
        [cc] + common + o("-O3") + ["-D__INTERFLOP_BOOTSTRAP__", "-I", inc] + cs("iostream")
        + ["-o", lib + "/libinterflop_logger.so"],
    ]
    stage2 = []
    for name, (d, lvl, twin) in BACKENDS.items():
        bd = os.path.join(src, "src/backends", d)
        srcs = sorted(glob.glob(bd + "/*.c") + glob.glob(bd + "/common/*.c"))
        libs = ["-linterflop_rng", "-linterflop_fma", "-linterflop_hashmap", "-linterflop_logger",
                "-linterflop_stdlib", "-lm"]
        for suffix, dfl in [("", ["-DRNG_THREAD_SAFE"] if twin else [])] + ([("_no-tls", [])] if twin else []):
            stage2.append([cc] + common + o(lvl) + dfl + ["-I", inc, "-I", bd] + srcs
                          + ["-o", "%s/libinterflop_%s%s.so" % (lib, name, suffix)] + rp + libs)
    stage2.append([cc] + base + ["-fPIC", "-shared", "-g", opt or "-O2", "-I", inc]
                  + sorted(glob.glob(os.path.join(src, "src/common/*.c")))
                  + ["-o", lib + "/libvfc_probes.so"] + rp + ["-linterflop_hashmap"])
    return stage1, stage2


def install_headers(src, out):
    inc = os.path.join(out, "include", "interflop")
    std = os.path.join(src, "src/interflop-stdlib")
    for root, _, files in os.walk(std):
        for f in files:
            if f.endswith(".h"):
                rel = os.path.relpath(os.path.join(root, f), std)
                os.makedirs(os.path.dirname(os.path.join(inc, rel)), exist_ok=True)
                shutil.copy2(os.path.join(root, f), os.path.join(inc, rel))
    for d, _, _ in BACKENDS.values():
        for f in glob.glob(os.path.join(src, "src/backends", d, "*.h")):
            shutil.copy2(f, inc)
        for f in glob.glob(os.path.join(src, "src/backends", d, "common/*.h")):
            os.makedirs(os.path.join(inc, "common"), exist_ok=True)
            shutil.copy2(f, os.path.join(inc, "common"))
    shutil.copy2(os.path.join(src, "src/common/vfc_probes.h"), os.path.join(out, "include"))
    with open(os.path.join(src, "src/vfcwrapper/main.c.in")) as f:
        main = f.read().replace("@LLVM_BINDIR@", LLVM + "/bin")
    with open(os.path.join(src, "src/vfcwrapper/funcinstr.c")) as f:
        func = f.read()
    with open(os.path.join(out, "include", "vfcwrapper.c"), "w") as f:
        f.write("// vfcwrapper.c is automatically generated\n" + main + func)
    for f in glob.glob(os.path.join(src, "src/vfcwrapper/*.[ch]")):
        if os.path.basename(f) not in ("funcinstr.c",):
            shutil.copy2(f, os.path.join(out, "include"))


def run_jobs(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))


def _build(variant, out):
    src = out + ".src"
    shutil.rmtree(src, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    copy_tree(src)
    for d in ("lib", "include", "bin"):
        os.makedirs(os.path.join(out, d))
    # prefix stays at its final place: names are embedded
    install_headers(src, out)
    jobs = []
    if variant == "std":
        stage1, stage2 = _lib_jobs(src, out, "gcc", ["-w"])
        with open(os.path.join(src, "config.h"), "w") as f:
            f.write("#define HAVE_DLFCN_H 1\n#define LLVM_VERSION_MAJOR 18\n")
        shutil.copy2(os.path.join(src, "config.h"), os.path.join(src, "src/config.h"))
        passes = []
        for d, n in (("libvfcinstrument", "libvfcinstrument"), ("libvfcfuncinstrument", "libvfcfuncinstrument")):
            passes.append([CLANGXX, "-w", "-fPIC", "-shared", "-O1"] + LLVM_CPPFLAGS
                          + sorted(glob.glob(os.path.join(src, "src", d, "*.cpp")))
                          + ["-o", "%s/lib/%s.so" % (out, n), "-L" + LLVM + "/lib"])
        with ThreadPoolExecutor(8) as ex:
            pf = [ex.submit(sh, c) for c in passes]
            list(ex.map(sh, stage1))
            list(ex.map(sh, stage2))
            [f.result() for f in pf]
        with open(os.path.join(src, "verificarlo.in.in")) as f:
            t = f.read()
        ver = open(os.path.join(src, "VERSION")).read()
        m = re.search(r"\d+\.\d+\.\d+", ver)
        sub = {"PACKAGE_STRING": "verificarlo " + (m.group(0) if m else "?"), "INTERFLOP_PREFIX": out,
               "INTERFLOP_INCLUDEDIR": out + "/include", "INTERFLOP_LIBDIR": out + "/lib",
               "LLVM_BINDIR": LLVM + "/bin", "LLVM_VERSION_MAJOR": "18", "CLANG_PATH": CLANG,
               "CLANGXX_PATH": CLANGXX, "LLVM_LINK_PATH": LLVM + "/bin/llvm-link",
               "FLANG_PATH": LLVM + "/bin/flang-new", "MARCH_FLAG": "-march=native"}
        for k, v in sub.items():
            t = t.replace("@%s@" % k, v)
        t = t.replace("%LIBDIR%", out + "/lib").replace("%INCLUDEDIR%", out + "/include")
        with open(out + "/bin/verificarlo", "w") as f:
            f.write(t)
        os.chmod(out + "/bin/verificarlo", 0o755)
        for w in ("verificarlo-c", "verificarlo-c++", "verificarlo-f"):
            shutil.copy2(os.path.join(src, w), out + "/bin")
        # python tools, importable as the package `verificarlo`
        os.makedirs(out + "/py")
        shutil.copytree(os.path.join(src, "src/tools"), out + "/py/verificarlo")
        for d in ("", "ddebug", "ci", "optimize"):
            p = os.path.join(out, "py/verificarlo", d, "__init__.py")
            if os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                open(p, "w").close()
    else:
        san = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
                        "-fno-omit-frame-pointer"],
               "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"]}[variant]
        stage1, stage2 = _lib_jobs(src, out, "gcc", ["-w", "-nodefaultlibs"] + san, opt="-O1")
        run_jobs(stage1)
        run_jobs(stage2)
    shutil.rmtree(src, ignore_errors=True)


def prune(keep):
    """keep the build folder small: drop products of other trees"""
    if not os.path.isdir(BUILD):
        return
    entries = [e for e in os.listdir(BUILD) if not e.endswith(".lock")]
    fam = {}
    for e in entries:
        fam.setdefault(e.split("-")[0], []).append(e)
    for v, es in fam.items():
        es.sort(key=lambda e: os.path.getmtime(os.path.join(BUILD, e)), reverse=True)
        for e in es[3:]:
            if e != keep:
                shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)


def build(variant="std"):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = "%s-%s" % (variant, tree_hash())
        out = os.path.join(BUILD, name)
        if not os.path.exists(os.path.join(out, ".done")):
            _build(variant, out)
            open(os.path.join(out, ".done"), "w").close()
            prune(name)
        return out


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["std"]:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
