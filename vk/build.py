"""Builds VossII from /repo's *current working tree* in a private copy.

The copy lives in <verif>/build/tree (git-ignored).  It is synchronised by file
content, never by time stamps; a change to anything the project's makefiles do
not track (headers, grammar, makefiles, scripts) causes a cold rebuild."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
BUILD = os.environ.get("VK_BUILD", os.path.join(VERIF, "build"))
TREE = os.path.join(BUILD, "tree")
STATE = os.path.join(BUILD, "state.json")

GENERATED = {
    "src/bin/fl/language.tab.c", "src/bin/fl/language.tab.h", "src/bin/fl/lex.yy.c",
    "src/bin/fl/prefs.h", "src/bin/fl/prefs_ext.h", "src/bin/fl/abi_version.h",
    "src/bin/fl/language.output",
}
SKIP_PREFIX = ("src/doc/", "src/bifrost/", "src/fl-hs-plugins/", "src/bin/fl/bugs/",
               "src/external/minisat-2.2.0/", "src/external/minisat/build/",
               "src/external/minisat/include/", "src/external/minisat/lib/",
               "src/external/minisat/bin/", "IDVII/src/fl/design/generics/")


class BuildError(Exception):
    pass


def env(extra=None):
    e = {
        "HOME": os.environ.get("HOME", "/root"), "USER": "root", "LOGNAME": "root",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PATH": TREE + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    }
    if extra:
        e.update(extra)
    return e


def source_files():
    """Relative path -> absolute path of every source file of the working tree."""
    try:
        out = subprocess.run(
            ["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o",
             "--exclude-standard", "--", "src", "IDVII"],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        names = [n for n in out.decode().split("\0") if n]
    except (OSError, subprocess.CalledProcessError):
        names = []
        for top in ("src", "IDVII"):
            for d, _, fs in os.walk(os.path.join(REPO, top)):
                for f in fs:
                    if f.endswith((".o", ".a", ".so")):
                        continue
                    names.append(os.path.relpath(os.path.join(d, f), REPO))
    res = {}
    for n in names:
        if n in GENERATED or n.startswith(SKIP_PREFIX):
            continue
        p = os.path.join(REPO, n)
        if os.path.lexists(p):
            res[n] = p
    return res


def _sha(p):
    if os.path.islink(p):
        return "L" + os.readlink(p)
    h = hashlib.sha256()
    with open(p, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest() + ("x" if os.stat(p).st_mode & 0o111 else "")


def _copy(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.lexists(dst):
        os.remove(dst)
    if os.path.islink(src):
        os.symlink(os.readlink(src), dst)
    else:
        shutil.copyfile(src, dst)
        os.chmod(dst, 0o755 if os.stat(src).st_mode & 0o111 else 0o644)


MAKE_WRAPPER = """#!/bin/bash
# sub-makes of the project's makefiles are started with a literal "make"
unset MAKEFLAGS MFLAGS MAKELEVEL
goals=""
for a in "$@"; do case "$a" in bin/fl) goals="$VK_FL_GOALS";; esac; done
exec /usr/bin/make -j8 "$@" $goals
"""

FLAGS = ["CC=gcc", "CX=g++", "CXX=g++", "DEBUG_FLAG='-DDEBUG'",
         "FL_OPTIONS='-D__STDC_LIMIT_MACROS -D __STDC_FORMAT_MACROS -DVOSS_MC'"]


def _make(log, args, extra_env=None, cwd=None):
    e = env(extra_env)
    e["PATH"] = os.path.join(BUILD, "wrap") + ":" + e["PATH"]
    for k in ("DISPLAY",):
        e.pop(k, None)
    return subprocess.Popen(["make"] + args, cwd=cwd or os.path.join(TREE, "src"), env=e,
                            stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)


def _install():
    b = os.path.join(TREE, "bin")
    os.makedirs(b, exist_ok=True)
    src = os.path.join(TREE, "src")
    for n in ("fl", "libfl.so", "builtins.fl", "preamble.fl", "front_end.tcl", "utils.tcl",
              "prefs.tcl"):
        d = os.path.join(b, n)
        if os.path.lexists(d):
            os.remove(d)
        shutil.copy(os.path.join(src, "bin/fl", n), d)
    for n in ("functor", "ignore_signals"):
        s = os.path.join(src, "bin", n, n)
        if os.path.exists(s):
            shutil.copy(s, os.path.join(b, n))
    lib = os.path.join(TREE, "vosslib")
    if os.path.isdir(lib):
        shutil.rmtree(lib)
    shutil.copytree(os.path.join(src, "vosslib"), lib, symlinks=True)


def _compile(logpath):
    wrap = os.path.join(BUILD, "wrap")
    os.makedirs(wrap, exist_ok=True)
    with open(os.path.join(wrap, "make"), "w") as fh:
        fh.write(MAKE_WRAPPER)
    os.chmod(os.path.join(wrap, "make"), 0o755)
    with open(logpath, "wb") as log:
        ps = [
            _make(log, ["-o", "library", "-o", "minisat", "-o", "visualization", "fl"] + FLAGS,
                  {"VK_FL_GOALS": "libfl.so"}),
            _make(log, ["library"] + FLAGS),
            _make(log, ["minisat"] + FLAGS),
            _make(log, ["functor"] + FLAGS),
            _make(log, ["ignore_signals"] + FLAGS),
        ]
        bad = [p.wait() for p in ps]
        if any(bad):
            return False
        p = _make(log, ["-o", "library", "-o", "minisat", "-o", "visualization", "fl"] + FLAGS,
                  {"VK_FL_GOALS": ""})
        return p.wait() == 0


def build(verbose=True, features=()):
    """Makes TREE up to date.  features: subset of {"generics", "yosys", "yaccfl"}."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        files = source_files()
        now = {n: _sha(p) for n, p in files.items()}
        try:
            with open(STATE) as fh:
                st = json.load(fh)
            if st.get("tree") != TREE or not os.path.isdir(TREE):
                st = {}
        except (OSError, ValueError):
            st = {}
        old = st.get("files", {})
        feats = st.get("features", {})
        changed = [n for n in now if old.get(n) != now[n]]
        removed = [n for n in old if n not in now]
        compiled = [n for n in changed if n.startswith("src/") and not n.startswith("src/vosslib/")
                    and not n.endswith((".fl", ".md", ".txt"))]
        cold = (not old) or bool([n for n in removed if not n.endswith(".fl")]) or \
            any(not n.endswith((".c", ".cc")) for n in compiled)
        if os.path.exists(STATE) and (changed or removed):
            os.remove(STATE)
        if cold:
            if os.path.isdir(TREE):
                shutil.rmtree(TREE)
            changed = list(now)
            removed = []
        for n in changed:
            _copy(files[n], os.path.join(TREE, n))
        for n in removed:
            p = os.path.join(TREE, n)
            if os.path.lexists(p):
                os.remove(p)
        logpath = os.path.join(BUILD, "build.log")
        if cold or compiled:
            if any("minisat" in n for n in compiled) and not cold:
                # minisat's makefile has no header dependencies worth trusting
                for d in ("build", "lib"):
                    shutil.rmtree(os.path.join(TREE, "src/external/minisat", d), ignore_errors=True)
                x = os.path.join(TREE, "src/bin/fl/minisat_ifc.o")
                if os.path.exists(x):
                    os.remove(x)
            ok = _compile(logpath)
            if not ok:
                # once more, serially and from scratch, before calling it a failure
                shutil.rmtree(TREE)
                for n in now:
                    _copy(files[n], os.path.join(TREE, n))
                ok = _compile(logpath)
            if not ok:
                with open(logpath, errors="replace") as fh:
                    tail = fh.read()[-3000:]
                raise BuildError("the working tree of /repo does not build:\n" + tail)
        if cold or changed or removed:
            _install()
            feats = {}
        for f in features:
            if not feats.get(f):
                _feature(f, os.path.join(BUILD, f + ".log"))
                feats[f] = True
        with open(STATE + ".tmp", "w") as fh:
            json.dump({"tree": TREE, "files": now, "features": feats}, fh)
        os.replace(STATE + ".tmp", STATE)
        if verbose:
            print("build: %s tree ready in %.1f s (%d source files, %d changed)" %
                  ("cold" if cold else "warm", time.time() - t0, len(now), len(changed)), flush=True)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _feature(f, logpath):
    with open(logpath, "wb") as log:
        if f == "generics":
            d = os.path.join(TREE, "IDVII/src/fl/design")
            shutil.rmtree(os.path.join(d, "generics"), ignore_errors=True)
            rc = _make(log, [], cwd=d).wait()
        elif f == "yosys":
            rc = _make(log, ["install_write_pexlif"] + FLAGS).wait()
        elif f == "yaccfl":
            rc = _make(log, ["-C", "bin/yaccfl", "BIN_DIR=" + TREE + "/bin",
                             "LIB_DIR=" + TREE + "/vosslib"]).wait()
        else:
            raise ValueError(f)
    if rc != 0:
        with open(logpath, errors="replace") as fh:
            tail = fh.read()[-3000:]
        raise BuildError("building %s failed:\n%s" % (f, tail))


if __name__ == "__main__":
    try:
        build(features=sys.argv[1:])
    except BuildError as e:
        print(e)
        sys.exit(2)
