"""Build the code under test from /repo's current working tree into a scratch
directory outside /repo, with the allocator seam (simalloc.cpp) linked into both
extension modules.  /repo and /opt/vp are only read."""
import os, shutil, subprocess, sys, sysconfig, tempfile, hashlib, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(os.path.dirname(HERE), ".cache"))
CXXFLAGS = ["-DNDEBUG", "-fwrapv", "-fPIC", "-std=c++17",
            "-fvisibility=hidden", "-g0", "-w", "-ftrivial-auto-var-init=pattern"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def tree_digest(src):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(src)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".py", ".cpp", ".h", ".cc", ".hh")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, src).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def toolchain():
    out = subprocess.run([PY, "-c", "import sysconfig,pybind11,sys;print(sysconfig.get_config_var('EXT_SUFFIX'));"
                          "print(sysconfig.get_paths()['include']);print(pybind11.get_include());"
                          "print(sys.version.replace(chr(10),' '), pybind11.__version__)"],
                         check=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
    gxx = subprocess.run(["g++", "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0]
    return ["-I" + out[1], "-I" + out[2]], out[0], (out[3], gxx)


def prune(keep=60):
    fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
    for f in fs[:-keep]:
        os.unlink(f)


def build(dest, repo=REPO, defines=()):
    """copy the package to dest/pkg/pyscal, compile its two modules there"""
    src = os.path.join(repo, "src", "pyscal")
    pkg = os.path.join(dest, "pkg", "pyscal")
    csrc = os.path.join(dest, "csrc")
    ignore = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.egg-info")
    shutil.copytree(src, pkg, ignore=ignore)
    shutil.copytree(os.path.join(repo, "lib", "voro++"), csrc)
    digest = tree_digest(os.path.join(dest, "pkg"))
    inc, suffix, ident = toolchain()
    units = {
        "atom": os.path.join(pkg, "atom.cpp"),
        "atom_binding": os.path.join(pkg, "atom_binding.cpp"),
        "system": os.path.join(pkg, "system.cpp"),
        "system_binding": os.path.join(pkg, "system_binding.cpp"),
        "voro": os.path.join(csrc, "voro++.cc"),
        "simalloc": os.path.join(HERE, "simalloc.cpp"),
    }
    obj = {k: os.path.join(dest, k + ".o") for k in units}

    heads = hashlib.sha256(repr((ident, CXXFLAGS, inc, sorted(defines))).encode())
    for d in (pkg, csrc, HERE):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hh", ".hpp")) or (d == csrc and f.endswith(".cc")):
                with open(os.path.join(d, f), "rb") as fh:
                    heads.update(f.encode() + hashlib.sha256(fh.read()).digest())
    heads = heads.digest()

    def cc(k):
        # pyscal's own units get checked std::vector indexing: an out-of-range
        # access is a deterministic abort instead of silent memory corruption
        hard = [] if k in ("voro", "simalloc") else ["-D_GLIBCXX_ASSERTIONS"]
        flags = ["-O1" if k.endswith("_binding") else "-O2"] + hard
        with open(units[k], "rb") as fh:
            text = fh.read()
        key = hashlib.sha256(heads + repr((k, flags)).encode() + text).hexdigest()
        hit = os.path.join(CACHE, key + ".o")
        # an object file is a function of its sources: reused only if all of them,
        # the flags and the compiler are the same
        if os.path.exists(hit):
            try:
                shutil.copyfile(hit, obj[k])
                os.utime(hit)
                return
            except OSError:
                pass
        _run(["g++"] + CXXFLAGS + flags + ["-D%s" % d for d in defines] +
             ["-I" + csrc, "-I" + pkg] + inc + ["-c", units[k], "-o", obj[k]])
        try:
            os.makedirs(CACHE, exist_ok=True)
            fd, tmp = tempfile.mkstemp(dir=CACHE)
            os.close(fd)
            shutil.copyfile(obj[k], tmp)
            os.replace(tmp, hit)
            prune()
        except OSError:
            pass

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(cc, units))
    # memory that voro++ asks for is counted apart
    _run(["objcopy", "--redefine-sym", "_Znwm=sim_voro_new", "--redefine-sym", "_Znam=sim_voro_new_array", obj["voro"]])
    link = ["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"]
    _run(link + [obj[k] for k in ("atom", "atom_binding", "simalloc")] +
         ["-o", os.path.join(pkg, "catom" + suffix)])
    _run(link + [obj[k] for k in ("system", "system_binding", "atom", "voro", "simalloc")] +
         ["-o", os.path.join(pkg, "csystem" + suffix)])
    for k in obj:
        os.unlink(obj[k])
    shutil.rmtree(csrc)
    return os.path.join(dest, "pkg"), digest


if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:3] or [])))
