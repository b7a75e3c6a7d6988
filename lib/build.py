"""Builds karta from /repo's *current working tree* into a private stage.

The .py files are copied, every .pyx is translated with the Cython the
repository's own build uses (0.29.37 from the PyPy venv, run under CPython
because that is four times faster; the generated C is the same) and compiled
with the flags of the repository's build, or with ASan+UBSan.  /repo is only
read.  Compiled objects are cached by the content of every native source file
plus the flags, so a stale object can never be used.
"""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys, tempfile, glob

REPO = os.environ.get("KARTA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv-pypy"
PY = VENV + "/bin/python"
SITE = VENV + "/lib/pypy3.9/site-packages"
SUFFIX = ".pypy39-pp73-x86_64-linux-gnu.so"
INCLUDES = ["-I" + VENV + "/include", "-I/usr/include/pypy3.9",
            "-I" + SITE + "/numpy/_core/include"]
STD_FLAGS = ["-pthread", "-DNDEBUG", "-O2", "-fPIC", "-w"]
SAN_FLAGS = ["-pthread", "-O1", "-g", "-fPIC", "-w", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined"]
C99 = {"vectorgeo", "quadtree", "rtree"}

CYRUN = ("import sys; sys.path.insert(0, %r); import warnings; warnings.simplefilter('ignore');"
         "from Cython.Compiler.Main import main; sys.argv=['cython']+sys.argv[1:]; main(command_line=1)")


class BuildError(Exception):
    pass


def native_sources(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".pyx", ".pxd", ".h", ".pxi")):
                out.append(os.path.join(d, f))
    return sorted(out)


def _one(args):
    stage, pyx, flags, cyp = args
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.pop("LD_PRELOAD", None)
    c = pyx[:-4] + ".c"
    for p in (c,):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(["/usr/bin/python3", "-c", CYRUN % cyp, pyx], cwd=stage, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(c):
        r2 = subprocess.run([PY, "-m", "cython", pyx], cwd=stage, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r2.returncode != 0 or not os.path.exists(c):
            return pyx, (r.stdout + r2.stdout).decode(errors="replace")
    name = os.path.basename(pyx)[:-4]
    so = pyx[:-4] + SUFFIX
    cmd = ["gcc", "-shared"] + flags + (["-std=c99"] if name in C99 else []) + INCLUDES + [
        "-I" + os.path.dirname(pyx), c, "-o", so, "-lm"]
    r = subprocess.run(cmd, cwd=stage, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return pyx, r.stdout.decode(errors="replace")
    return pyx, None


def stage(dest, sanitize=False, repo=REPO):
    """Create dest/karta, built from repo. Returns a digest of the tree."""
    src = os.path.join(repo, "karta")
    nat = native_sources(src)
    flags = SAN_FLAGS if sanitize else STD_FLAGS
    h = hashlib.sha256(repr(flags).encode())
    for f in nat:
        h.update(os.path.relpath(f, src).encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    key = h.hexdigest()[:24]

    def ignore(d, names):
        return [n for n in names if n.endswith((".so", ".pyc", ".o")) or n == "__pycache__"
                or (n.endswith(".c") and n[:-2] + ".pyx" in names)]
    shutil.copytree(src, os.path.join(dest, "karta"), ignore=ignore)

    cache = os.path.join(VERIF, ".cache", key)
    pyxs = [os.path.relpath(f, src) for f in nat if f.endswith(".pyx")]
    if not all(os.path.exists(os.path.join(cache, p[:-4] + SUFFIX)) for p in pyxs):
        tmp = tempfile.mkdtemp(prefix="kbuild")
        try:
            shutil.copytree(src, os.path.join(tmp, "karta"), ignore=ignore)
            cyp = os.path.join(tmp, "cyp")
            os.mkdir(cyp)
            for pkg in ("Cython", "coordstring", "numpy"):
                os.symlink(os.path.join(SITE, pkg), os.path.join(cyp, pkg))
            # the Python under which Cython runs must not import PyPy's binary
            # packages: they are there for their .pxd files only
            jobs = [(tmp, os.path.join(tmp, "karta", p), flags, cyp) for p in pyxs]
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                for pyx, err in ex.map(_one, jobs):
                    if err:
                        raise BuildError("%s:\n%s" % (os.path.basename(pyx), err[-4000:]))
            for p in pyxs:
                d = os.path.join(cache, p[:-4] + SUFFIX)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                t = d + ".%d.tmp" % os.getpid()
                shutil.copy(os.path.join(tmp, "karta", p[:-4] + SUFFIX), t)
                os.rename(t, d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        old = sorted(glob.glob(os.path.join(VERIF, ".cache", "*")), key=os.path.getmtime)
        for d in old[:-8]:
            shutil.rmtree(d, ignore_errors=True)
    for p in pyxs:
        shutil.copy(os.path.join(cache, p[:-4] + SUFFIX), os.path.join(dest, "karta", p[:-4] + SUFFIX))
    return key


if __name__ == "__main__":
    import time
    t = time.time()
    if "--warm" in sys.argv:      # fill the build cache
        for san in (False, True):
            d = tempfile.mkdtemp(prefix="kwarm")
            try:
                print(stage(d, sanitize=san), round(time.time() - t, 1))
            finally:
                shutil.rmtree(d, ignore_errors=True)
    else:
        print(stage(sys.argv[1], sanitize="--san" in sys.argv), time.time() - t)
