"""Builds the library from /repo's working tree (out of tree, under /verif/build)
and links harness programs against it."""
import hashlib, os, subprocess, shutil, fcntl, glob, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FZ_REPO", "/repo")
BUILD = os.environ.get("FZ_BUILD") or os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

# name: (CC, FC, meson options, CFLAGS, FFLAGS, LDFLAGS)
VARIANTS = {
 "ship":  ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized"], "", "", ""),
 "small1": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-DFZ_INIT_STACK_LEN=1", ""),
 "small2": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-DFZ_INIT_STACK_LEN=2", ""),
 "small3": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-DFZ_INIT_STACK_LEN=3", ""),
 "small7": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-DFZ_INIT_STACK_LEN=7", ""),
 "chk1": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-DFZ_INIT_STACK_LEN=1 -fcheck=bounds,do,mem,pointer,recursion", ""),
 "chk":  ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "-fcheck=bounds,do,mem,pointer,recursion", ""),
 "asan": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized"], "-fsanitize=address", "-fsanitize=address", "-fsanitize=address"),
 "cov": ("gcc-11", "gfortran-11", ["--buildtype=debug"], "--coverage", "", "--coverage"),   # development aid, used by no check
 "o0": ("gcc-11", "gfortran-11", ["--buildtype=debug"], "", "", ""),
 "o3": ("gcc-11", "gfortran-11", ["--buildtype=release"], "", "", ""),
 "static": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Ddefault_library=static"], "", "", ""),
 "nosun": ("gcc-11", "gfortran-11", ["--buildtype=debugoptimized", "-Dsundials=false"], "", "", ""),
 "os": ("gcc-11", "gfortran-11", ["--buildtype=minsize"], "", "", ""),
 "gf13": ("gcc", "gfortran", ["--buildtype=debugoptimized"], "", "", ""),
 "gf13o0": ("gcc", "gfortran", ["--buildtype=debug"], "", "", ""),
 "clang": ("clang", "gfortran-11", ["--buildtype=debugoptimized"], "", "", ""),
}

def _hash_tree():
    h = hashlib.sha256()
    roots = ["meson.build", "meson_options.txt", "src", "lib/sundials-6.1.1/meson.build",
             "lib/sundials-6.1.1/src", "lib/sundials-6.1.1/include"]
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            try: h.update(open(f, "rb").read())
            except OSError: pass
    return h.hexdigest()[:16]

def _run(cmd, log, env=None, cwd=None):
    with open(log, "ab") as l:
        l.write(("$ " + " ".join(cmd) + "\n").encode()); l.flush()
        rc = subprocess.call(cmd, stdout=l, stderr=l, env=env, cwd=cwd)
    if rc:
        sys.stderr.write(open(log, errors="replace").read()[-4000:])
        raise BuildError(" ".join(cmd))

class BuildError(Exception): pass

_tree = None
def tree():
    global _tree
    if _tree is None: _tree = _hash_tree()
    return _tree

def build_lib(variant):
    """returns the build directory of the library variant for the current tree"""
    cc, fc, mopts, cfl, ffl, ldf = VARIANTS[variant]
    key = hashlib.sha256(repr((tree(), VARIANTS[variant])).encode()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "OK")):
            os.utime(d); return d
        for o in glob.glob(os.path.join(BUILD, variant + "-*")):   # other trees of this variant
            shutil.rmtree(o, ignore_errors=True)
        env = dict(os.environ, CC=cc, FC=fc, CFLAGS=cfl, FFLAGS=ffl, LDFLAGS=ldf, LC_ALL="C.UTF-8")
        log = os.path.join(BUILD, variant + ".log")
        open(log, "w").close()
        _run(["meson", "setup", d, REPO, "--wrap-mode=nodownload", "-Dwerror=false"] + mopts, log, env)
        tgt = "src/libfazang.a" if "-Ddefault_library=static" in mopts else "src/libfazang.so"
        _run(["ninja", "-C", d, tgt], log, env)
        open(os.path.join(d, "OK"), "w").write("ok\n")
    return d

def moddirs(d):
    s = set()
    for root, ds, fs in os.walk(d):
        if any(f.endswith(".mod") for f in fs): s.add(root)
    return sorted(s)

def build_exe(variant, name, fsrc, cxxsrc, libs=(), cxxflags=(), csrc=(), ffl_extra=()):
    """Fortran shim(s) + C++ explorer linked with the library variant."""
    d = build_lib(variant)
    cc, fc, mopts, cfl, ffl, ldf = VARIANTS[variant]
    static = "-Ddefault_library=static" in mopts
    deps = [os.path.join(HARN, f) for f in list(fsrc) + list(cxxsrc) + list(csrc)]
    deps += sorted(glob.glob(os.path.join(HARN, "*.h")))
    h = hashlib.sha256()
    for f in deps: h.update(open(f, "rb").read())
    h.update(repr((libs, cxxflags, ffl_extra)).encode())
    od = os.path.join(d, "harness"); os.makedirs(od, exist_ok=True)
    exe = os.path.join(od, name + "-" + h.hexdigest()[:12])
    with open(os.path.join(od, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        for o in glob.glob(os.path.join(od, name + "-*")): os.remove(o)
        log = os.path.join(od, name + ".log"); open(log, "w").close()
        wd = os.path.join(od, name + ".d"); os.makedirs(wd, exist_ok=True)
        objs = []
        procs = []
        asan = ["-fsanitize=address"] if "-fsanitize=address" in cfl else []
        for f in cxxsrc:
            o = os.path.join(wd, f + ".o")
            procs.append((subprocess.Popen(["g++", "-std=gnu++17", "-O2", "-g1", "-fno-omit-frame-pointer", "-c", os.path.join(HARN, f), "-o", o] + asan + list(cxxflags),
                          stdout=open(log, "ab"), stderr=subprocess.STDOUT), f)); objs.append(o)
        for f in csrc:
            o = os.path.join(wd, f + ".o")
            inc = ["-I" + os.path.join(REPO, "lib/sundials-6.1.1/include")]
            inc += ["-I" + x for x in glob.glob(os.path.join(d, "lib/**/include"), recursive=True)]
            procs.append((subprocess.Popen(["gcc", "-O2", "-g1", "-c", os.path.join(HARN, f), "-o", o] + inc + asan,
                          stdout=open(log, "ab"), stderr=subprocess.STDOUT), f)); objs.append(o)
        for f in fsrc:
            o = os.path.join(wd, f + ".o")
            _run([fc, "-O1", "-g", "-ffree-line-length-none", "-fmax-stack-var-size=65536", "-c", os.path.join(HARN, f), "-o", o, "-J" + wd]
                 + ["-I" + x for x in moddirs(d) if not x.startswith(od)] + asan + list(ffl_extra), log)
            objs.append(o)
        for p, f in procs:
            if p.wait():
                sys.stderr.write(open(log, errors="replace").read()[-4000:]); raise BuildError("compile " + f)
        link = [fc, "-g", "-o", exe + ".tmp"] + objs
        if static:
            link += [os.path.join(d, "src/libfazang.a")] + glob.glob(os.path.join(d, "lib/**/lib*.a"), recursive=True)
        else:
            link += ["-L" + os.path.join(d, "src"), "-lfazang", "-Wl,-rpath," + os.path.join(d, "src")]
        # g++-13's libstdc++ / libquadmath
        stdcxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        link += [stdcxx, "-lquadmath", "-lm", "-lpthread"] + list(libs) + asan
        _run(link, log)
        os.rename(exe + ".tmp", exe)
    return exe
